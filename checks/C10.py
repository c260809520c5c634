"""Overloads: generated overload sets in generated declaration orders; every call names the overload it reached."""
from vlib import Result, compare_output

PROPERTY = "C10"
LEVEL = "exploration"
CASES = {"quick": 21000, "thorough": 70000}
RULE = ("case = program with 1 to 3 overload sets (functions, namespace functions, methods, static methods, constructors, methods spread over a class and its "
        "base) of 2 to 6 overloads in generated order and 4 to 14 calls of known argument types, one program in four with one call that matches no overload; "
        "non-trivial if at least 3 different overloads of one set are reached or the program contains the unmatched call; distinct counts program texts")

NATIVE = ["bool", "int16", "int", "int64", "float", "double", "string"]
USER = ["K", "L", "Gen<int>", "Gen<string>", "E", "F"]
TYPES = NATIVE + USER
PRELUDE = """enum E { one = 1, two; }
enum F { one = 1, two; }
public object K { public int id; public void Constructor(int i) { id = i; } }
public object L extends K { public void Constructor(int i) { id = i; } }
public object Gen<T> { public int id; public void Constructor(int i) { id = i; } }
public object Hold {
 public bool v_bool; public int16 v_int16; public int v_int; public int64 v_int64; public float v_float; public double v_double; public string v_string;
 public void Constructor() { v_bool = true; v_int16 = 7; v_int = 8; v_int64 = 9; v_float = 2.5f; v_double = 3.5d; v_string = "h"; }
}
"""
HOLD = {"bool": "1", "int16": "7", "int": "8", "int64": "9", "float": "2.5", "double": "3.5", "string": "h"}


def ident(typ):
    return typ.replace("<", "_").replace(">", "")


def lit(typ, t):
    """Literal-like expression of the type and the text a body prints for it."""
    n = t.int(1, 9)
    if typ == "bool":
        return ("true", "1") if n % 2 else ("false", "0")
    if typ == "int":
        return str(n), str(n)
    if typ == "float":
        return "%d.5f" % n, "%d.5" % n
    if typ == "double":
        return "%d.5d" % n, "%d.5" % n
    if typ == "string":
        return '"t%d"' % n, "t%d" % n
    if typ in ("int16", "int64"):
        return "cast<%s>(%d)" % (typ, n), str(n)
    if typ in ("E", "F"):
        return "%s.%s" % (typ, "one" if n % 2 else "two"), "-"
    return "new %s(%d)" % (typ, n), str(n)


class Overload:
    def __init__(self, owner, sig, required, ret, tag):
        self.owner, self.sig, self.required, self.ret, self.tag = owner, sig, required, ret, tag
        self.defaults = []

    def accepts(self, args):
        return self.required <= len(args) <= len(self.sig) and list(self.sig[:len(args)]) == list(args)


class Set:
    def __init__(self, t, num):
        self.t, self.num = t, num
        self.kind = t.weighted([(4, "function"), (2, "namespace"), (4, "method"), (2, "static"), (3, "constructor"), (3, "inherited")])
        pool = t.sample(TYPES, t.int(2, 5))
        self.pool = pool
        self.overloads = []
        seen = set()
        for i in range(t.int(2, 6)):
            sig = tuple(t.choice(pool) for _ in range(t.weighted([(1, 0), (4, 1), (4, 2), (2, 3)])))
            owner = t.choice("BD") if self.kind == "inherited" else "D"
            if (owner, sig) in seen:
                continue
            seen.add((owner, sig))
            ret = t.choice(NATIVE) if self.kind != "constructor" else None
            o = Overload(owner, sig, len(sig), ret, "s%d.%d" % (num, i))
            if self.kind == "inherited":
                same = [p for p in self.overloads if p.sig == sig]
                if same:
                    o.ret = same[0].ret
            d = t.int(0, 2) if t.bool(1, 3) else 0
            while d and o.required and sig[o.required - 1] in ("bool", "int", "string", "float", "double"):
                o.required -= 1
                d -= 1
            o.defaults = [lit(s, t) for s in sig[o.required:]]
            if ret:
                o.value = lit(o.ret, t)
            self.overloads.append(o)

    def select(self, args):
        """The overload a call must reach, None if no one matches, False if more than one could."""
        c = [o for o in self.overloads if o.accepts(args)]
        if not c:
            return None
        exact = [o for o in c if len(o.sig) == len(args)]
        derived = [o for o in exact if o.owner == "D"]
        if len(c) == 1:
            return c[0]
        if self.kind == "inherited":
            if derived and all(o in exact or o.owner == "B" for o in c):
                return derived[0]
            return derived[0] if derived else False
        return exact[0] if exact else False

    def decl(self, o):
        params = []
        for i, s in enumerate(o.sig):
            d = " = %s" % o.defaults[i - o.required][0] if i >= o.required else ""
            params.append("%s a%d%s" % (s, i, d))
        show = "".join(' + " " + %s' % ("a%d" % i if s in NATIVE else '"-"' if s in ("E", "F") else "a%d.id" % i) for i, s in enumerate(o.sig))
        body = 'print("%s"%s);' % (o.tag, show)
        if o.ret:
            body += " return %s;" % o.value[0]
        if self.kind == "constructor":
            return "public void Constructor(%s) { %s }" % (", ".join(params), body)
        mod = " const" if self.kind in ("method", "inherited") else ""
        return "public %s%s f%d(%s)%s { %s }" % ("static " if self.kind == "static" else "", o.ret, self.num, ", ".join(params), mod, body)

    def source(self, order):
        ds = {"B": [], "D": []}
        for o in order:
            ds[o.owner].append(self.decl(o))
        n = self.num
        j = "\n ".join
        if self.kind == "function":
            return ds["D"]
        if self.kind == "namespace":
            return ["namespace N%d {\n %s\n}" % (n, j(ds["D"]))]
        if self.kind == "inherited":
            return ["public object B%d {\n %s\n}" % (n, j(ds["B"])), "public object D%d extends B%d {\n %s\n}" % (n, n, j(ds["D"]))]
        return ["public object D%d {\n %s\n}" % (n, j(ds["D"]))]

    def call(self, args):
        a = ", ".join(args)
        n = self.num
        return {"function": "f%d(%s)" % (n, a), "namespace": "N%d.f%d(%s)" % (n, n, a), "method": "d%d.f%d(%s)" % (n, n, a), "inherited": "d%d.f%d(%s)" % (n, n, a),
                "static": "D%d.f%d(%s)" % (n, n, a), "constructor": "new D%d(%s)" % (n, a)}[self.kind]


class G:
    def __init__(self, t):
        self.t = t
        self.out = []
        self.reached = {}
        self.sets = [Set(t, i) for i in range(t.int(1, 3))]
        self.temp = 0

    def value(self, typ, d):
        """Expression of the type; the outputs evaluating it produces; text printed for it."""
        t = self.t
        k = t.weighted([(4, "lit"), (3 if typ in USER or typ in NATIVE else 0, "var"), (2 if typ in NATIVE else 0, "field"), (0 if d > 1 else 4, "call"), (1, "ternary"),
                        (2 if typ in ("int", "string", "double", "int64") else 0, "sum")])
        if k == "var":
            return "v_%s" % ident(typ), [], {"bool": "1", "int16": "3", "int": "4", "int64": "5", "float": "1.5", "double": "0.5", "string": "v", "E": "-", "F": "-"}.get(typ, "6")
        if k == "field":
            return "hold.v_%s" % typ, [], HOLD[typ]
        if k == "call":
            c = [s for s in self.sets if any(o.ret == typ for o in s.overloads)]
            if c:
                s = t.choice(c)
                r = self.call(s, t.choice([o for o in s.overloads if o.ret == typ]), d + 1)
                if r and r[2].ret == typ:
                    return r[0], r[1], r[2].value[1]
        if k == "ternary" and typ in NATIVE:
            s, x = lit(typ, t)
            o, y = lit(typ, t)
            b = t.bool()
            return "((v_bool == %s) ? %s : %s)" % ("true" if b else "false", s, o), [], x if b else y
        if k == "sum":
            s, _ = lit(typ, t)
            if typ == "string":
                return "(v_string + %s)" % s, [], "v" + s[1:-1]
            v = {"int": 4, "double": 0.5, "int64": 5}[typ]
            x = v + float(_)
            return "(v_%s + %s)" % (typ, s), [], str(x)[:-2] if str(x).endswith(".0") else str(x)
        s, x = lit(typ, t)
        return s, [], x

    def call(self, s, o, d):
        t = self.t
        args = list(o.sig[:t.int(o.required, len(o.sig))])
        target = s.select(args)
        if not target:
            return None
        vs = [self.value(a, d) for a in args]
        lines = [x for v in vs for x in v[1]]
        texts = [v[2] for v in vs] + [x for _, x in target.defaults[len(args) - target.required:]]
        lines.append(" ".join([target.tag] + texts))
        self.reached.setdefault(s.num, set()).add(target.tag)
        return s.call([v[0] for v in vs]), lines, target

    def bad(self):
        t = self.t
        s = t.choice(self.sets)
        for _ in range(6):
            o = t.choice(s.overloads)
            args = list(o.sig)
            how = t.choice(["replace", "append", "drop", "swap"])
            if how == "replace" and args:
                i = t.below(len(args))
                old = args[i]
                args[i] = t.choice(NATIVE if old in NATIVE else [x for x in TYPES if x not in ("K", "L")] if old in ("K", "L") else TYPES)
            elif how == "append":
                args.insert(t.below(len(args) + 1), t.choice(NATIVE))
            elif how == "drop" and args:
                args.pop(t.below(len(args)))
            elif how == "swap":
                args.reverse()
            if s.kind == "constructor" and not args:
                continue
            kl = ["K" if a == "L" else a for a in args]
            if any(o.accepts(args) or [("K" if x == "L" else x) for x in o.sig[:len(args)]] == kl and o.required <= len(args) <= len(o.sig) for o in s.overloads):
                continue
            return s.call([self.value(a, 9)[0] for a in args]), s
        return None

    def statement(self, call, s):
        if s.kind == "constructor":
            self.temp += 1
            return "D%d t%d = %s;" % (s.num, self.temp, call)
        return call + ";" if self.t.bool() else "print(%s);" % call

    def run(self):
        t = self.t
        body, expected = [], ["START"]
        for i in range(t.int(4, 14)):
            s = t.choice(self.sets)
            r = self.call(s, t.choice(s.overloads), 0)
            if not r:
                continue
            st = self.statement(r[0], s)
            body.append(st)
            expected += r[1]
            if st.startswith("print("):
                expected.append(r[2].value[1])
        rejected = False
        extra = []
        if t.bool(1, 4):
            b = self.bad()
            if b:
                rejected = True
                st = self.statement(b[0], b[1])
                where = t.choice(["here", "if", "else", "while", "for", "function", "method"])
                if where == "here":
                    body.insert(t.below(len(body) + 1), st)
                elif where == "function":
                    extra.append("public void never() {\n%s\n%s\n}" % (self.locals(), st))
                elif where == "method":
                    extra.append("public object Never {\n public void never() modify {\n%s\n%s\n }\n}" % (self.locals(), st))
                else:
                    body.insert(t.below(len(body) + 1), {"if": "if ( v_int == 5 ) { %s }", "else": "if ( v_int == 4 ) { } else { %s }", "while": "while ( v_int == 5 ) { %s }",
                                                         "for": "for ( int i = 0; i < 0; i++ ) { %s }"}[where] % st)
        parts = []
        for s in self.sets:
            order = list(s.overloads)
            order[:] = t.shuffle(order)
            parts += s.source(order)
        main = "public int Main(int argc, string args) {\nprint(\"START\");\n%s\n%s\nreturn 0;\n}" % (self.locals(), "\n".join(body))
        parts.append(main)
        parts += extra
        if t.bool():
            parts[:] = t.shuffle(parts)
            parts.sort(key=lambda p: p.startswith("public object D") and " extends " in p)
        return PRELUDE + "\n".join(parts) + "\n", expected, rejected

    def locals(self):
        vals = {"bool": "true", "int16": "3", "int": "4", "int64": "5", "float": "1.5f", "double": "0.5d", "string": '"v"', "E": "E.one", "F": "F.two"}
        ls = ["%s v_%s = %s;" % (x, ident(x), vals.get(x, "new %s(6)" % x)) for x in TYPES]
        ls.append("Hold hold = new Hold();")
        for s in self.sets:
            if s.kind in ("method", "inherited"):
                ls.append("D%d d%d = new D%d();" % (s.num, s.num, s.num))
        return "\n".join(ls)


def gen(t):
    g = G(t)
    src, out, rejected = g.run()
    return {"src": src, "out": out, "rejected": rejected, "most": max([len(v) for v in g.reached.values()] or [0]), "kinds": [s.kind for s in g.sets]}


def run(case, env):
    got = env.slang(case["src"])
    labels = dict.fromkeys(case["kinds"], 1)
    if case["rejected"]:
        labels["unmatched"] = 1
        failure = None
        if got.rc == 0 or b"START" in got.out:
            failure = "a call that matches no overload is accepted (exit status %d, output %r)" % (got.rc, got.out[:80])
    else:
        failure = compare_output("".join(x + "\n" for x in case["out"]), 0, got)
    return Result(failure, case["rejected"] or case["most"] >= 3, case["src"], labels=labels)


def render(case):
    return case["src"]
