"""Calls: generated (mutually) recursive functions and methods with default parameters against a model of activations."""
from nat import wrap
from vlib import Result, compare_output

PROPERTY = "C09"
LEVEL = "exploration"
CASES = {"quick": 24000, "thorough": 80000}
RULE = ("case = program of 2 to 5 functions, methods or static methods that call each other and themselves with generated arguments, omit trailing arguments, change "
        "their parameters and shadow names, called from the main function; non-trivial if at least 8 calls are made, one of them inside an "
        "active call of the same function and one with omitted arguments; distinct counts program texts")

MAXCALLS = 250


class TooMany(Exception):
    pass


class Cell:
    def __init__(self, v):
        self.v = v


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Func:
    def __init__(self, name, kind, ret, params):
        self.name, self.kind, self.ret, self.params = name, kind, ret, params      # params: (type, name, default or None)
        self.body = []


def show(v):
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, Cell):
        return str(v.v)
    return str(v)


class G:
    def __init__(self, t):
        self.t = t
        self.out = []
        self.calls = self.nested = self.omitted = 0
        self.active = {}
        self.fs = []
        for i in range(t.int(2, 5)):
            kind = t.weighted([(4, "function"), (2, "method"), (1, "static")])
            ret = t.choice(["int", "int", "string", "bool", "Cell"])
            params = [("int", "d", None)]
            names = ["a", "b", "c", "s"]
            dflt = False
            for n in range(t.int(0, 4)):
                typ = t.choice(["int", "int", "string", "bool", "Cell"])
                if typ != "Cell" and (dflt or t.bool(1, 3)):
                    dflt = True
                    params.append((typ, names[n], self.const(typ)))
                elif not dflt:
                    params.append((typ, names[n], None))
            self.fs.append(Func("f%d" % i, kind, ret, params))

    def const(self, typ):
        t = self.t
        if typ == "int":
            return t.int(0, 20)
        if typ == "bool":
            return t.bool()
        return t.choice(["", "x", "yz", "q q"])

    def lit(self, v):
        if isinstance(v, bool):
            return "true" if v else "false"
        return '"%s"' % v if isinstance(v, str) else str(v)

    # expressions: (source, function of env)
    def expr(self, typ, scope, d=0):
        t = self.t
        vs = [n for n, ty in scope if ty == typ]
        cells = [n for n, ty in scope if ty == "Cell"]
        k = t.weighted([(5 if vs else 0, "var"), (2, "const"), (0 if d > 2 else 4, "op")])
        if k == "var":
            n = t.choice(vs)
            return n, lambda e: e[n]
        if k == "const" or (k == "op" and typ == "Cell"):
            if typ == "Cell":
                s, f = self.expr("int", scope, d + 1)
                return "new Cell(%s)" % s, lambda e: Cell(f(e))
            v = self.const(typ)
            return self.lit(v), lambda e: v
        if typ == "int":
            if cells and t.bool(1, 3):
                n = t.choice(cells)
                return "%s.v" % n, lambda e: e[n].v
            a, f = self.expr("int", scope, d + 1)
            b, g = self.expr("int", scope, d + 1)
            o = t.choice("+-*")
            return "(%s %s %s)" % (a, o, b), {"+": lambda e: wrap(f(e) + g(e), "int"), "-": lambda e: wrap(f(e) - g(e), "int"), "*": lambda e: wrap(f(e) * g(e), "int")}[o]
        if typ == "bool":
            a, f = self.expr("int", scope, d + 1)
            b, g = self.expr("int", scope, d + 1)
            return "(%s < %s)" % (a, b), lambda e: f(e) < g(e)
        a, f = self.expr("string", scope, d + 1)
        b, g = self.expr("int", scope, d + 1)
        return "(%s + %s)" % (a, b), lambda e: (f(e) + show(g(e)))[-40:] if False else f(e) + show(g(e))

    def call(self, fn, dsrc, dfun, scope, inside):
        """Source and evaluator of a call of fn."""
        t = self.t
        n = len(fn.params) - 1
        first_default = next((i for i, p in enumerate(fn.params) if p[2] is not None), len(fn.params))
        given = t.int(first_default, len(fn.params))
        args = [(dsrc, dfun)] + [self.expr(p[0], scope, 1) for p in fn.params[1:given]]
        obj = {"function": "", "method": "box.", "static": "Stat."}[fn.kind]
        if fn.kind == "method" and inside is not None and inside.kind == "method" and t.bool(2, 3):
            obj = t.choice(["", "this."])
        src = "%s%s(%s)" % (obj, fn.name, ", ".join(a for a, _ in args))

        def ev(e):
            self.calls += 1
            if self.calls > MAXCALLS:
                raise TooMany()
            vals = [f(e) for _, f in args]
            if given < len(fn.params):
                self.omitted += 1
            if self.active.get(fn.name):
                self.nested += 1
            env = {}
            for i, p in enumerate(fn.params):
                env[p[1]] = vals[i] if i < len(vals) else p[2]
            self.active[fn.name] = self.active.get(fn.name, 0) + 1
            self.out.append("%s %s" % (fn.name, " ".join(show(env[p[1]]) for p in fn.params)))
            try:
                for st in fn.body:
                    st(env)
            except Return as r:
                return r.v
            finally:
                self.active[fn.name] -= 1
            raise AssertionError("no return")
        return src, ev

    def function(self, fn):
        t = self.t
        scope = [(p[1], p[0]) for p in fn.params]
        lines = ["print(\"%s \" + %s);" % (fn.name, " + \" \" + ".join(p[1] + (".v" if p[0] == "Cell" else "") for p in fn.params))]
        fn.body = []
        n = 0
        for _ in range(t.int(1, 6)):
            k = t.choice(["call", "call", "call", "change", "change", "local", "cell", "return", "loop"])
            if k in ("call", "return", "loop"):
                g = t.choice(self.fs)
                src, ev = self.call(g, "d - 1", lambda e: e["d"] - 1, scope, fn)
                name = "r%d" % n
                n += 1
                shown = "%s%s" % (name, ".v" if g.ret == "Cell" else "")
                if k == "return" and g.ret == fn.ret:
                    lines.append("if ( d > 0 ) { return %s; }" % src)

                    def st(e, ev=ev):
                        if e["d"] > 0:
                            raise Return(ev(e))
                elif k == "loop":
                    lines.append("if ( d > 0 ) { for ( int i = 0; i < 2; i++ ) { %s %s = %s; print(\"%s \" + i + \" \" + %s); } }" % (g.ret, name, src, name, shown))

                    def st(e, ev=ev, name=name):
                        if e["d"] > 0:
                            for i in range(2):
                                v = ev(e)
                                self.out.append("%s %d %s" % (name, i, show(v)))
                else:
                    back = [m for m, ty in scope if ty == g.ret and m != "d"]
                    if back and t.bool():
                        m = t.choice(back)
                        lines.append("if ( d > 0 ) { %s = %s; }" % (m, src))

                        def st(e, ev=ev, m=m):
                            if e["d"] > 0:
                                e[m] = ev(e)
                    else:
                        lines.append("if ( d > 0 ) { %s %s = %s; print(\"%s \" + %s); }" % (g.ret, name, src, name, shown))

                        def st(e, ev=ev, name=name):
                            if e["d"] > 0:
                                v = ev(e)
                                self.out.append("%s %s" % (name, show(v)))
                fn.body.append(st)
            elif k == "change":
                cand = [(m, ty) for m, ty in scope if m != "d"]
                if not cand:
                    continue
                m, ty = t.choice(cand)
                s, f = self.expr(ty, scope)
                lines.append("%s = %s;" % (m, s))
                fn.body.append(lambda e, m=m, f=f: e.__setitem__(m, f(e)))
            elif k == "local":
                ty = t.choice(["int", "string", "bool", "Cell"])
                m = "l%d" % n
                n += 1
                s, f = self.expr(ty, scope)
                lines.append("%s %s = %s;" % (ty, m, s))
                scope.append((m, ty))
                fn.body.append(lambda e, m=m, f=f: e.__setitem__(m, f(e)))
            else:
                cand = [m for m, ty in scope if ty == "Cell"]
                if not cand:
                    continue
                m = t.choice(cand)
                s, f = self.expr("int", scope)
                lines.append("%s.v = %s;" % (m, s))

                def st(e, m=m, f=f):
                    v = f(e)
                    e[m].v = v
                fn.body.append(st)
        lines.append("print(\"end %s \" + %s);" % (fn.name, " + \" \" + ".join(m + (".v" if ty == "Cell" else "") for m, ty in scope)))
        names = [m for m, _ in scope]
        fn.body.append(lambda e: self.out.append("end %s %s" % (fn.name, " ".join(show(e[m]) for m in names))))
        s, f = self.expr(fn.ret, scope)
        lines.append("return %s;" % s)

        def ret(e):
            raise Return(f(e))
        fn.body.append(ret)
        head = "public %s%s %s(%s)%s" % ("static " if fn.kind == "static" else "", fn.ret, fn.name,
                                         ", ".join("%s %s%s" % (ty, m, "" if d is None else " = " + self.lit(d)) for ty, m, d in fn.params),
                                         " modify" if fn.kind == "method" else "")
        ind = "" if fn.kind == "function" else "\t"
        return "\n".join([ind + head + " {"] + [ind + "\t" + x for x in lines] + [ind + "}"])


def gen(t):
    g = G(t)
    srcs = [(f.kind, g.function(f)) for f in g.fs]
    names = [("a", "int"), ("b", "int"), ("s", "string"), ("c", "Cell"), ("d", "int"), ("o", "bool")]
    env = {"a": 3, "b": 5, "s": "main", "c": Cell(9), "d": 7, "o": True}
    body = ["box = new Box();", "int a = 3;", "int b = 5;", "string s = \"main\";", "Cell c = new Cell(9);", "int d = 7;", "bool o = true;"]
    for i in range(t.int(1, 4)):
        fn = t.choice(g.fs)
        depth = t.int(0, 4)
        src, ev = g.call(fn, str(depth), lambda e, depth=depth: depth, names, None)
        mark = len(g.out)
        try:
            v = ev(env)
        except TooMany:
            # the model may have changed shared objects half way, so the program ends before this call
            del g.out[mark:]
            break
        body.append("%s m%d = %s;" % (fn.ret, i, src))
        body.append("print(\"main %d \" + m%d%s + \" \" + a + b + s + c.v + d + o);" % (i, i, ".v" if fn.ret == "Cell" else ""))
        g.out.append("main %d %s %s" % (i, show(v), "".join(show(env[m]) for m in ("a", "b", "s", "c", "d", "o"))))
    src = "public object Cell {\n\tpublic void Constructor(int x) { v = x; }\n\tpublic int v;\n}\n\n"
    methods = [s for k, s in srcs if k == "method"]
    src += "public object Stat {\n%s\n\tprivate int unused;\n}\n\n" % "\n".join(s for k, s in srcs if k == "static")
    src += "public object Box {\n%s\n\tprivate int unused;\n}\n\nBox box;\n\n" % "\n".join(methods)
    src += "\n".join(s for k, s in srcs if k == "function")
    src += "\n\npublic int Main(int argc, string args) modify {\n%s\n\treturn 0;\n}\n" % "\n".join("\t" + b for b in body)
    return {"src": src, "out": g.out, "n": [g.calls, g.nested, g.omitted]}


def run(case, env):
    got = env.slang(case["src"])
    c, n, o = case["n"]
    return Result(compare_output("".join(x + "\n" for x in case["out"]), 0, got), c >= 8 and n >= 1 and o >= 1, case["src"],
                  labels={"calls": c, "nested": n, "omitted": o})


def render(case):
    return case["src"]
