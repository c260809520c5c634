"""Overloaded operators: generated classes whose operators report their operands, evaluated by a model with the native precedences."""
from vlib import Result, compare_output

PROPERTY = "C13"
LEVEL = "exploration"
CASES = {"quick": 10500, "thorough": 60000}
CHUNK = 25
RULE = ("case = program with two classes that overload a generated set of operators for several right operand types and 8 to 20 statements using "
        "them; non-trivial if at least 10 operator calls are made, at least 3 of them on the result of another operator or call; distinct counts program texts")

ADD = ["+", "-", "&", "|", "<<", ">>"]
MUL = ["*", "/", "%"]
CMP = ["<", "<=", ">", ">=", "=="]
PREC = dict([(o, 2) for o in ADD] + [(o, 3) for o in MUL] + [(o, 1) for o in CMP + ["!="]])
CLASSES = ["K", "L"]


class G:
    def __init__(self, t):
        self.t = t
        self.ops = {}           # (class, op, right type) -> result type
        self.index = {}         # (class, type) -> result type
        self.assign = set()     # (class, type)
        self.casts = {}         # (class, type)
        self.vars = {}          # name -> [class, text]
        self.out = []
        self.body = []
        self.calls = self.chained = 0
        for c in CLASSES:
            for o in ADD + MUL:
                for r in ["K", "L", "int", "string"]:
                    if t.bool(2, 5):
                        self.ops[(c, o, r)] = t.weighted([(6, c), (2, "K"), (2, "L"), (1, "int"), (1, "string")])
            for o in CMP:
                for r in ["K", "L", "int", "string"]:
                    if t.bool(1, 2):
                        self.ops[(c, o, r)] = "bool"
            if not any(k[0] == c and k[1] in MUL and v == c for k, v in self.ops.items()):
                self.ops[(c, "*", c)] = c
            if not any(k[0] == c and k[1] in ADD and v == c for k, v in self.ops.items()):
                self.ops[(c, "+", c)] = c
            for r in ["int", "string", "int, string", "int, int"]:
                if t.bool(2, 3):
                    self.index[(c, r)] = t.choice(["K", "L", "int", "string"])
            for r in ["int", "string"]:
                if t.bool(2, 3):
                    self.assign.add((c, r))

    # --- source of the classes ----------------------------------------------------------------------------------------------------------
    def value_src(self, typ, text):
        """Source of the value with the given text expression."""
        return {"K": "new K(%s)", "L": "new L(%s)", "int": "strlen(%s) %% 7", "string": "%s"}[typ] % text

    def classes(self):
        out = []
        for c in CLASSES:
            m = ["\tpublic void Constructor(string v) { s = v; }",
                 "\tpublic string =operator(string) const { print(\"%s as string \" + s); return \"%s:\" + s; }" % (c, c),
                 "\tpublic int =operator(int) const { print(\"%s as int \" + s); return strlen(s); }" % c]
            for (k, o, r), res in sorted(self.ops.items()):
                if k != c:
                    continue
                m.append(self.method(c, o, r, res))
            for (k, r), res in sorted(self.index.items()):
                if k != c:
                    continue
                ps = r.split(", ")
                names = "ab"[:len(ps)]
                args = " + \",\" + ".join(names)
                m.append("\tpublic %s operator[](%s) const { print(\"%s[%s] \" + s + \" \" + %s); return %s; }" % (
                    res, ", ".join("%s %s" % p for p in zip(ps, names)), c, r, args, self.value_src(res, "s + \"[\" + %s + \"]\"" % args)))
            for (k, r) in sorted(self.assign):
                if k == c:
                    m.append("\tpublic %s operator=(%s o) modify { print(\"%s=%s \" + s + \" \" + o); s = \"%s\" + o; return this; }" % (c, r, c, r, r[0]))
            m[:] = self.t.shuffle(m)
            m.append("\tpublic string s;")
            out.append("public object %s {\n%s\n}\n" % (c, "\n".join(m)))
        return "\n".join(out)

    def method(self, c, o, r, res):
        right = "o.s" if r in CLASSES else "o"
        text = "\"(\" + s + \"%s\" + %s + \")\"" % (o, right)
        mod = self.t.choice(["", " const"]) if r in CLASSES else ""
        if res == "bool":
            if r == "int":
                val = "strlen(s) %s o" % o
            else:
                val = "s %s %s" % (o, right)
            return "\tpublic bool operator%s(%s o%s) const { print(\"%s%s%s \" + s + \" \" + %s); return %s; }" % (o, r, mod, c, o, r, right, val)
        return "\tpublic %s operator%s(%s o%s) const { print(\"%s%s%s \" + s + \" \" + %s); return %s; }" % (res, o, r, mod, c, o, r, right, self.value_src(res, text))

    # --- model ------------------------------------------------------------------------------------------------------------------------------
    @staticmethod
    def make(typ, text):
        if typ in CLASSES:
            return (typ, text)
        return len(text) % 7 if typ == "int" else text

    @staticmethod
    def txt(v):
        return v[1] if isinstance(v, tuple) else str(v)

    def apply(self, o, l, r, rt, chained):
        c = l[0]
        self.calls += 1
        self.chained += chained
        base = "==" if o == "!=" else o
        self.out.append("%s%s%s %s %s" % (c, base, rt, l[1], self.txt(r)))
        res = self.ops[(c, base, rt)]
        if res == "bool":
            if rt == "int":
                a, b = len(l[1]), r
            else:
                a, b = l[1], self.txt(r)
            v = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[o]
            return v
        return self.make(res, "(%s%s%s)" % (l[1], o, self.txt(r)))

    # --- expressions: (kind, ...) trees, evaluated while printing is done separately ----------------------------------------------------
    def tree(self, typ, d):
        t = self.t
        if typ in CLASSES:
            cand = [k for k, v in sorted(self.ops.items()) if v == typ]
            idx = [k for k, v in sorted(self.index.items()) if v == typ]
        else:
            cand = [k for k, v in sorted(self.ops.items()) if v == typ] if t.bool(1, 3) else []
            idx = [k for k, v in sorted(self.index.items()) if v == typ] if t.bool(1, 3) else []
        opts = [(3 + 4 * d, "leaf")]
        if cand and d < 4:
            opts.append((12, "op"))
        if idx and d < 3:
            opts.append((1, "index"))
        if typ in CLASSES and d < 3:
            opts.append((2, "call"))
        k = t.weighted(opts)
        if k == "op":
            c, o, r = t.choice(cand)
            return ("op", o, self.tree(c, d + 1), self.tree(r, d + 1), r)
        if k == "index":
            c, r = t.choice(idx)
            ps = r.split(", ")
            return ("index", self.var(c), [self.tree(p, d + 2) for p in ps], r)
        if k == "call":
            return ("call", typ, self.tree("string", d + 1))
        if typ in CLASSES:
            return self.var(typ) if t.bool(4, 5) else ("new", typ, t.choice(["n", "m", "xy"]))
        if typ == "int":
            return ("int", t.int(0, 20))
        return ("string", t.choice(["", "a", "b", "zz"]))

    def var(self, c):
        return ("var", self.t.choice(sorted(n for n, v in self.vars.items() if v[0] == c)))

    def src(self, e):
        """(source, precedence)"""
        k = e[0]
        if k == "op":
            p = PREC[e[1]]
            l, lp = self.src(e[2])
            r, rp = self.src(e[3])
            if lp < p:
                l = "(%s)" % l
            if rp <= p:
                r = "(%s)" % r
            return "%s %s %s" % (l, e[1], r), p
        if k == "index":
            return "%s[%s]" % (self.src(e[1])[0], ", ".join(self.src(x)[0] for x in e[2])), 9
        if k == "call":
            return "mk%s(%s)" % (e[1], self.src(e[2])[0]), 9
        if k == "new":
            return "new %s(\"%s\")" % (e[1], e[2]), 9
        if k == "var":
            return e[1], 9
        if k == "int":
            return str(e[1]), 9
        if k == "string":
            return '"%s"' % e[1], 9
        raise AssertionError(k)

    def ev(self, e):
        k = e[0]
        if k == "op":
            l = self.ev(e[2])
            r = self.ev(e[3])
            return self.apply(e[1], l, r, e[4], e[2][0] != "var")
        if k == "index":
            o = tuple(self.vars[e[1][1]])
            args = [self.txt(self.ev(x)) for x in e[2]]
            self.calls += 1
            self.out.append("%s[%s] %s %s" % (o[0], e[3], o[1], ",".join(args)))
            return self.make(self.index[(o[0], e[3])], "%s[%s]" % (o[1], ",".join(args)))
        if k == "call":
            s = self.ev(e[2])
            self.out.append("mk " + s)
            return (e[1], "m" + s)
        if k == "new":
            return (e[1], e[2])
        if k == "var":
            return tuple(self.vars[e[1]])
        return e[1]

    def cond(self, d):
        """(source, thunk)"""
        t = self.t
        cand = [k for k, v in sorted(self.ops.items()) if v == "bool"]
        if not cand:
            return "true", lambda: True
        if d < 2 and t.bool(1, 3):
            a, f = self.cond(d + 1)
            b, g = self.cond(d + 1)
            if t.bool():
                return "(%s && %s)" % (a, b), lambda: f() and g()
            return "(%s || %s)" % (a, b), lambda: f() or g()
        c, o, r = t.choice(cand)
        if o == "==" and t.bool(1, 3):
            o = "!="
        e = ("op", o, self.tree(c, 2), self.tree(r, 2), r)
        return self.src(e)[0], lambda: self.ev(e)

    def statement(self, n):
        t = self.t
        k = t.choice(["init", "assign", "compound", "compound", "cast", "member", "if", "cond", "operator=", "value", "implicit"])
        if k in ("init", "assign"):
            c = t.choice(CLASSES)
            e = self.tree(c, 0)
            v = self.ev(e)
            if k == "init":
                self.body.append("\t%s v%d = %s;" % (c, n, self.src(e)[0]))
                self.alias("v%d" % n, e, v)
                self.body.append("\tprint(v%d.s);" % n)
            else:
                x = self.var(c)[1]
                # the old object may be shared with other variables, the model replaces only this one
                self.body.append("\t%s = %s;" % (x, self.src(e)[0]))
                self.alias(x, e, v)
                self.body.append("\tprint(%s.s);" % x)
            self.out.append(v[1])
        elif k == "compound":
            cand = [key for key, v in sorted(self.ops.items()) if v == key[0] and key[1] in "+-*/%&|"]
            c, o, r = t.choice(cand)
            x = self.var(c)[1]
            e = self.tree(r, 1)
            right = self.ev(e)
            v = self.apply(o, tuple(self.vars[x]), right, r, True)
            self.body.append("\t%s %s= %s;" % (x, o, self.src(e)[0]))
            self.vars[x] = list(v)
            self.body.append("\tprint(%s.s);" % x)
            self.out.append(v[1])
        elif k in ("cast", "implicit"):
            c = t.choice(CLASSES)
            e = self.tree(c, 0)
            v = self.ev(e)
            typ = t.choice(["string", "int"])
            if k == "cast":
                self.body.append("\tprint(cast<%s>(%s));" % (typ, self.src(e)[0]))
            else:
                self.body.append("\t%s w%d = %s;" % (typ, n, self.src(e)[0]))
                self.body.append("\tprint(w%d);" % n)
            self.out.append("%s as %s %s" % (c, typ, v[1]))
            self.out.append("%s:%s" % v if typ == "string" else str(len(v[1])))
            self.calls += 1
        elif k == "member":
            c = t.choice(CLASSES)
            e = self.tree(c, 0)
            v = self.ev(e)
            s, p = self.src(e)
            self.body.append("\tprint(%s.s);" % (s if e[0] == "var" else "(%s)" % s))
            self.out.append(v[1])
        elif k in ("if", "cond"):
            s, f = self.cond(0)
            v = f()
            if k == "if":
                self.body.append("\tif ( %s ) { print(\"yes\"); } else { print(\"no\"); }" % s)
                self.out.append("yes" if v else "no")
            else:
                self.body.append("\tprint(%s);" % s)
                self.out.append(str(int(v)))
        elif k == "operator=":
            if not self.assign:
                return
            c, r = t.choice(sorted(self.assign))
            x = self.var(c)[1]
            e = self.tree(r, 2)
            v = self.ev(e)
            self.out.append("%s=%s %s %s" % (c, r, self.vars[x][1], v))
            self.body.append("\t%s = %s;" % (x, self.src(e)[0]))
            self.vars[x][1] = "%s%s" % (r[0], v)
            self.calls += 1
            self.body.append("\tprint(%s.s);" % x)
            self.out.append(self.vars[x][1])
        else:
            typ = t.choice(["int", "string"])
            e = self.tree(typ, 0)
            v = self.ev(e)
            self.body.append("\tprint(%s);" % self.src(e)[0])
            self.out.append(str(v))

    def alias(self, x, e, v):
        """x = e: if e is a variable both share one object afterwards."""
        self.vars[x] = self.vars[e[1]] if e[0] == "var" else list(v)


def gen(t):
    g = G(t)
    for c in CLASSES:
        for n in ("p", "q"):
            name = n + c.lower()
            g.vars[name] = [c, name[0]]
            g.body.append("\t%s %s = new %s(\"%s\");" % (c, name, c, name[0]))
        for path in ("box", "box.in", "box.in.deep"):
            g.vars["%s.%s" % (path, c.lower())] = [c, path[-1] + c.lower()]
    g.body.append("\tBox box = new Box();")
    for n in range(t.many(8, 20, 8)):
        g.statement(n)
    for n in sorted(g.vars):
        g.body.append("\tprint(%s.s);" % n)
        g.out.append(g.vars[n][1])
    src = g.classes() + '''
public object Deep {
	public K k;
	public L l;
	public void Constructor() { k = new K("pk"); l = new L("pl"); }
}

public object Inner {
	public K k;
	public L l;
	public Deep deep;
	public void Constructor() { k = new K("nk"); l = new L("nl"); deep = new Deep(); }
}

public object Box {
	public K k;
	public L l;
	public Inner in;
	public void Constructor() { k = new K("xk"); l = new L("xl"); in = new Inner(); }
}

public K mkK(string s) { print("mk " + s); return new K("m" + s); }
public L mkL(string s) { print("mk " + s); return new L("m" + s); }

public int Main(int argc, string args) modify throws {
%s
	return 0;
}
''' % "\n".join(g.body)
    return {"src": src, "out": g.out, "calls": g.calls, "chained": g.chained}


def run(case, env):
    got = env.slang(case["src"])
    return Result(compare_output("".join(x + "\n" for x in case["out"]), 0, got), case["calls"] >= 10 and case["chained"] >= 3, case["src"],
                  labels={"operator calls": case["calls"], "chained": case["chained"]})


def render(case):
    return case["src"]
