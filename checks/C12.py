"""Generics: a program with generated generic classes against the same program with every instantiation written out."""
import re

from vlib import Result, compare_output

PROPERTY = "C12"
LEVEL = "exploration"
CASES = {"quick": 6500, "thorough": 45000}
RULE = ("case = program with 1 to 3 generic classes of one or two type parameters that use each other and library collections, instantiated with generated types, run "
        "next to the program in which every instantiation is a class of its own, or (one of four) one instantiation of a generic class with constrained parameters, which "
        "has to be run or refused; non-trivial if a parameter is constrained or the specialised program has at least 3 instantiations, two of them of "
        "the same generic class, and prints at least 5 lines; distinct counts program texts")

TYPES = ["int", "int64", "double", "string", "bool", "K", "E"]
ADD = ["int", "int64", "double", "string"]

PRELUDE = """import System.Collections.List;
enum E { one = 1, two; }
public object K { public int n; public void Constructor(int i) { n = i; } public bool operator==(K o) const { return n == o.n; } }
public string show(int x) { return "int " + cast<string>(x); }
public string show(int64 x) { return "int64 " + cast<string>(x); }
public string show(double x) { return "double " + cast<string>(x); }
public string show(string x) { return "string " + x; }
public string show(bool x) { return "bool " + cast<string>(x); }
public string show(K x) { return "K " + cast<string>(x.n); }
public string show(E x) { if ( x == E.one ) { return "E one"; } return "E two"; }
"""


def lit(typ, t):
    n = t.int(1, 5)
    return {"int": "%d" % n, "int64": "cast<int64>(%d)" % n, "double": "%d.5d" % n, "string": '"s%d"' % n, "bool": "true" if n % 2 else "false", "K": "new K(%d)" % n,
            "E": "E.one" if n % 2 else "E.two"}[typ]


class Cls:
    """A generic class: params, and a list of (methods source with @type@ markers)."""

    def __init__(self, g, num):
        t = g.t
        self.num, self.name = num, "G%d" % num
        self.space = g.spaces[num]
        self.params = ["T"] if t.bool(2, 3) else ["T", "U"]
        self.add = t.bool(1, 2)                  # T supports + and <
        self.types = ADD if self.add else TYPES
        p = self.params
        self.methods = {}                        # name -> (params, return type) with types over T, U
        src = ["public @T@ v;", "public int c;"]
        init = ["v = x;", "c = %d;" % t.int(0, 3)]
        ctor = ["@T@ x"]
        if len(p) == 2:
            src.append("public @U@ w;")
            ctor.append("@U@ y")
            init.append("w = y;")
        self.ctor = list(p)
        me = "@%s@" % self.ref(p)
        inner = []
        for o in g.classes:
            if t.bool(2, 3) and len(inner) < 2:
                args = []
                for q in o.params:
                    ok = [x for x in p if x != "T" or not o.add or self.add] if q == "T" else p
                    if q == "T" and o.add:
                        ok = [x for x in ok if x == "T" and self.add]
                    args.append(t.choice(ok) if ok and t.bool(3, 4) else t.choice(o.types if q == "T" else TYPES))
                inner.append((o, args))
        for i, (o, args) in enumerate(inner):
            r = "@%s@" % o.ref(args)
            src.append("public %s in%d;" % (r, i))
            vals = ["x" if a == "T" else "y" if a == "U" else lit(a, t) for a in args]
            init.append("in%d = new %s(%s);" % (i, r, ", ".join(vals)))
            src.append("public %s getIn%d() const { return in%d; }" % (r, i, i))
            self.methods["getIn%d" % i] = ([], ("class", o, args))
            src.append("public @%s@ unwrap%d(%s o) const { return o.v; }" % (args[0], i, r))
            self.methods["unwrap%d" % i] = ([("class", o, args)], args[0])
            src.append("public void put%d(%s o) modify { in%d = o; c = c + 1; }" % (i, r, i))
            self.methods["put%d" % i] = ([("class", o, args)], None)
        other = t.bool()
        src.append("public void Constructor(%s) { %s }" % (", ".join(ctor), " ".join(init)))
        src.append("public @T@ get() const { return v; }")
        self.methods["get"] = ([], "T")
        src.append("public void set(@T@ x) modify { v = x; c = c + 1; }")
        self.methods["set"] = (["T"], None)
        opts = ["pick", "same", "local", "list", "thrown", "opeq", "me", "show", "recurse", "hold", "over", "default"]
        if self.add:
            opts += ["sum", "less", "plus"]
        if len(p) == 2:
            opts += ["swap", "second"]
        for o in t.sample(opts, t.int(2, 7)):
            if o == "pick":
                src.append("public @T@ pick(@T@ a, @T@ b, bool first) const { return first ? a : b; }" if other else
                           "public @T@ pick(@T@ a, @T@ b, bool first) const { if ( first ) { return a; } return b; }")
                self.methods[o] = (["T", "T", "bool"], "T")
            elif o == "same":
                src.append("public bool same(@T@ a, @T@ b) const { return a == b; }")
                self.methods[o] = (["T", "T"], "bool")
            elif o == "local":
                src.append("public @T@ local(@T@ a, int n) const { @T@ r = a; for ( int i = 0; i < n; i++ ) { @T@ z = v; r = z; } return r; }")
                self.methods[o] = (["T", "int"], "T")
            elif o == "list":
                src.append("public int list(@T@ a, @T@ b) const { List<@T@> l = new List<@T@>(); l.push_back(a); l.push_back(b); l.push_back(v); int n = 0; "
                           "foreach ( @T@ e : l ) { print(show(e)); if ( e == a ) { n = n + 1; } } return n; }")
                self.methods[o] = (["T", "T"], "int")
            elif o == "thrown":
                src.append("public int thrown(@T@ a) const { try { throw a; } catch ( int i ) { return 1; } catch ( @T@ e ) { print(show(e)); return 2; } return 3; }" if other else
                           "public int thrown(@T@ a) const { try { throw new @%s@(%s); } catch ( @T@ e ) { return 1; } catch ( %s e ) { return 2; } return 3; }"
                           % (self.ref(p), "a" if len(p) == 1 else "a, w", me))
                self.methods[o] = (["T"], "int")
            elif o == "opeq":
                src.append("public bool operator==(%s o) const { return v == o.v; }" % me)
                self.methods["=="] = ([("class", self, list(p))], "bool")
            elif o == "me":
                src.append("public %s me(@T@ a) const { return new %s(a%s); }" % (me, me, ", w" if len(p) == 2 else ""))
                self.methods[o] = (["T"], ("class", self, list(p)))
            elif o == "show":
                src.append("public string show2(@T@ a) const { return show(a) + \" / \" + show(v); }")
                self.methods["show2"] = (["T"], "string")
            elif o == "recurse":
                src.append("public @T@ recurse(@T@ a, int n) const { if ( n == 0 ) { return a; } return recurse(v, n - 1); }")
                self.methods[o] = (["T", "int"], "T")
            elif o == "hold":
                src.append("public @T@ held;")
                src.append("public @T@ hold(@T@ a) modify { @T@ old = v; held = a; v = held; return old; }")
                self.methods[o] = (["T"], "T")
            elif o == "over":
                src.append("public string over(@T@ a) const { return \"one\"; } public string over(@T@ a, @T@ b) const { return \"two\"; } public string over() const { return \"none\"; }")
                self.methods[o] = (["T"] * t.int(0, 2), "string")
            elif o == "default":
                src.append("public int deflt(@T@ a, int n = %d) const { if ( a == v ) { return n; } return c; }" % t.int(2, 9))
                self.methods["deflt"] = (["T"] + ["int"] * t.int(0, 1), "int")
            elif o == "sum":
                src.append("public @T@ sum(@T@ a, int n) const { @T@ r = a; for ( int i = 0; i < n; i++ ) { r += v; } return r; }")
                self.methods[o] = (["T", "int"], "T")
            elif o == "less":
                src.append("public bool less(@T@ a) const { return a < v; }")
                self.methods[o] = (["T"], "bool")
            elif o == "plus":
                src.append("public @T@ operator+(%s o) const { return v + o.v; }" % me)
                self.methods["+"] = ([("class", self, list(p))], "T")
            elif o == "swap" and not self.add:
                r = self.ref(["U", "T"])
                src.append("public @%s@ swap() const { return new @%s@(w, v); }" % (r, r))
                self.methods[o] = ([], ("class", self, ["U", "T"]))
            elif o == "second":
                src.append("public @U@ second(@T@ a, @U@ b) const { if ( a == v ) { return b; } return w; }")
                self.methods[o] = (["T", "U"], "U")
        fields = [x for x in src if x.endswith(";")]
        meths = [x for x in src if not x.endswith(";")]
        if t.bool(1, 3):
            meths[:] = t.shuffle(meths)
        self.src = fields + meths

    def ref(self, args):
        return "%s%s<%s>" % (self.space, self.name, ",".join(args))


class G:
    def __init__(self, t):
        self.t = t
        self.spaces = ["" if t.bool(4, 5) else "N." for _ in range(3)]
        if t.bool(1, 2):
            self.spaces = [""] * 3
        self.classes = []
        for i in range(t.int(1, 3)):
            self.classes.append(Cls(self, i))
        self.vars = []                # (name, class, args)
        self.body = []
        self.funcs = []

    def subst(self, typ, env):
        """Type over the parameters -> concrete one."""
        if typ is None:
            return None
        if isinstance(typ, tuple):
            return ("class", typ[1], [env.get(a, a) for a in typ[2]])
        return env.get(typ, typ)

    def value(self, typ, d=0):
        t = self.t
        if isinstance(typ, tuple):
            _, c, args = typ
            vs = [n for n, o, a in self.vars if o is c and a == args]
            if vs and t.bool(2, 3):
                return t.choice(vs)
            return "new @%s@(%s)" % (c.ref(args), ", ".join(self.value(x, d + 1) for x in args))
        if d < 2 and t.bool(1, 4):
            vs = [(n, c, a, m) for n, c, a in self.vars for m, (ps, r) in c.methods.items() if m not in ("==", "+") and self.subst(r, dict(zip(c.params, a))) == typ]
            if vs:
                n, c, a, m = t.choice(vs)
                return "%s.%s(%s)" % (n, m, ", ".join(self.value(self.subst(x, dict(zip(c.params, a))), d + 1) for x in c.methods[m][0]))
        return lit(typ, t)

    def show(self, typ, expr):
        if typ is None:
            self.body.append(expr + ";")
        elif isinstance(typ, tuple):
            n = "o%d" % len(self.body)
            self.body.append("@%s@ %s = %s;" % (typ[1].ref(typ[2]), n, expr))
            self.vars.append((n, typ[1], typ[2]))
            self.body.append("print(show(%s.v));" % n)
        else:
            self.body.append("print(show(%s));" % expr)

    def new(self, c, args):
        n = "o%d" % len(self.body)
        self.body.append("@%s@ %s = %s;" % (c.ref(args), n, "new @%s@(%s)" % (c.ref(args), ", ".join(self.value(x) for x in args))))
        self.vars.append((n, c, args))

    def inst(self, c):
        t = self.t
        if c.params == ["T", "U"] and "swap" in c.methods:
            return [t.choice(TYPES), t.choice(TYPES)]
        return [t.choice(c.types)] + [t.choice(TYPES) for _ in c.params[1:]]

    def run(self):
        t = self.t
        for _ in range(t.int(2, 4)):
            c = t.choice(self.classes)
            self.new(c, self.inst(c))
        for _ in range(t.int(4, 16)):
            k = t.weighted([(2, "new"), (10, "call"), (2, "field"), (1, "function"), (1, "maker"), (1, "is"), (1, "derived")])
            n, c, a = t.choice(self.vars)
            env = dict(zip(c.params, a))
            if k == "new":
                c = t.choice(self.classes)
                self.new(c, self.inst(c) if t.bool(2, 3) else a if c.name == self.vars[0][1].name and a == self.vars[0][2] else self.inst(c))
            elif k == "call":
                m = t.choice(sorted(c.methods))
                ps, r = c.methods[m]
                args = [self.value(self.subst(x, env)) for x in ps]
                r = self.subst(r, env)
                if m in ("==", "+"):
                    self.show(r, "(%s %s %s)" % (n, m, args[0]))
                else:
                    self.show(r, "%s.%s(%s)" % (n, m, ", ".join(args)))
            elif k == "field":
                if t.bool():
                    self.body.append("%s.v = %s;" % (n, self.value(a[0])))
                self.body.append("print(show(%s.v) + cast<string>(%s.c));" % (n, n))
            elif k == "function":
                f = "f%d" % len(self.funcs)
                self.funcs.append("public string %s(@%s@ g) { return show(g.get()) + \"!\"; }" % (f, c.ref(a)))
                self.body.append("print(%s(%s));" % (f, n))
            elif k == "maker":
                f = "f%d" % len(self.funcs)
                args = self.inst(c)
                self.funcs.append("public @%s@ %s() { return new @%s@(%s); }" % (c.ref(args), f, c.ref(args), ", ".join(lit(x, t) for x in args)))
                if t.bool():
                    self.show(("class", c, args), f + "()")
                else:
                    self.body.append("print(show(%s().get()));" % f)
            elif k == "is":
                args = self.inst(c)
                self.body.append("print(show(%s is @%s@));" % (n, c.ref(args if t.bool() else a)))
            elif k == "derived":
                f = "X%d" % len(self.funcs)
                args = self.inst(c)
                ps = ", ".join("%s p%d" % (x, i) for i, x in enumerate(args))
                self.funcs.append("public object %s extends @%s@ { public void Constructor(%s) { base.Constructor(%s); } public string more() const { return show(v) + \"?\"; } }"
                                  % (f, c.ref(args), ps, ", ".join("p%d" % i for i in range(len(args)))))
                v = "o%d" % len(self.body)
                self.body.append("%s %s = new %s(%s);" % (f, v, f, ", ".join(self.value(x) for x in args)))
                self.body.append("print(%s.more() + show(%s.get()));" % (v, v))
                if t.bool():
                    self.body.append("@%s@ b%s = %s; print(show(b%s.get()));" % (c.ref(args), v, v, v))
        parts = self.funcs + ["public int Main(int argc, string args) {\n%s\nreturn 0;\n}" % "\n".join(self.body)]
        order = list(self.classes)
        order[:] = t.shuffle(order)
        late = t.bool(1, 4)
        # the generic program
        plain = lambda s: s.replace("@", "")
        cs = []
        for c in order:
            body = "public object %s<%s> {\n %s\n}" % (c.name, ", ".join(c.params), plain("\n ".join(c.src)))
            cs.append("namespace N {\n%s\n}" % body if c.space else body)
        ps = [plain(p) for p in parts]
        generic = PRELUDE + "\n".join(ps + cs if late else cs + ps) + "\n"
        # every instantiation written out
        todo, done = [], {}

        def spec(s, env):
            def f(m):
                x = m.group(1)
                if "<" not in x:
                    return env.get(x, x)
                name, args = x[:-1].split("<")
                args = [env.get(a, a) for a in args.split(",")]
                key = "_".join([name.replace("N.", "")] + args)
                if key not in done:
                    done[key] = None
                    todo.append((key, name.replace("N.", ""), args))
                return ("N." if name.startswith("N.") else "") + key
            return re.sub("@([^@]*)@", f, s)

        ps = [spec(p, {}) for p in parts]
        cs = []
        count = {}
        while todo:
            key, name, args = todo.pop()
            c = self.classes[int(name[1:])]
            count[name] = count.get(name, 0) + 1
            body = "public object %s {\n %s\n}" % (key, spec("\n ".join(c.src), dict(zip(c.params, args))))
            cs.append("namespace N {\n%s\n}" % body if c.space else body)
            if len(cs) > 40:
                break
        cs.reverse()
        special = PRELUDE + "\n".join(cs + ps) + "\n"
        return {"generic": generic, "special": special, "insts": len(cs), "same": max(count.values())}


BASIC = ["int", "string", "bool", "double"]


def constraint(t):
    """one instantiation of a generic class whose parameters are restricted to subtypes of classes or interfaces"""
    ifaces = ["I%d" % i for i in range(t.int(0, 2))]
    classes = ["Root"]
    above = {"Root": {"Root"}}
    decl = ["public interface %s { public int i%s() const; }" % (i, i) for i in ifaces]
    decl.append("public object Root { public int v; public int get() const { return v + 1; } public void set(int x) modify { v = x; } }")
    for i in range(t.int(1, 4)):
        n = "C%d" % i
        base = t.choice(classes) if t.bool(2, 3) else None
        impl = [x for x in ifaces if t.bool(1, 3)]
        above[n] = {n} | (above[base] if base else set()) | set(impl)
        body = ["public int i%s() const { return %d; }" % (x, i) for x in impl]
        if not base:
            body.append("public int v;")
            body.append("public int get() const { return v + 1; }")
            body.append("public void set(int x) modify { v = x; }")
        decl.append("public object %s%s%s { %s }" % (n, " extends " + base if base else "", " implements " + ", ".join(impl) if impl else "", " ".join(body)))
        classes.append(n)
    for n in classes:
        above[n] = above[n] | {"Object"}
    n = t.int(1, 2)
    limits = [t.weighted([(4, t.choice(classes + ifaces)), (1, "Object"), (2, None)]) for _ in range(n)]
    params = "TU"[:n]
    heads = ", ".join(p + (t.choice([" : ", ": ", ":"]) + c if c else "") for p, c in zip(params, limits))
    good = [t.choice([c for c in classes if l is None or l in above[c]] or [None]) for l in limits]
    count = n
    args = list(good)
    wrong = t.bool()
    if wrong:
        i = t.below(n)
        bad = [c for c in classes + BASIC if limits[i] is not None and limits[i] not in above.get(c, set())]
        if bad and t.bool(9, 10):
            args[i] = t.choice(bad)
        else:
            args = args + [t.choice(classes)]
            count = len(args)
    if None in good:
        # no class is below the limit
        args = [a or t.choice(classes) for a in args]
        good = None
    allowed = count == n and all(l is None or l in above.get(a, set()) for a, l in zip(args, limits))
    place = t.choice(["local", "local", "local", "member", "parameter", "result", "base", "new"])

    def program(args):
        typ = "G<%s>" % ", ".join(args)
        out = list(decl)
        fields = "".join(" public %s m%s;" % (p, p) for p in params)
        out.append("public object G<%s> {%s public int c; public void put(T a) modify { mT = a; c = c + 1; } public T take() const { return mT; } public int count() modify { c = c + 1; return c; } }" % (heads, fields))
        first = args[0]
        lines = ["print(\"start\");"]
        if place == "member":
            out.append("public object Holder { public %s held; }" % typ)
            lines += ["Holder h = new Holder();", "h.held = new %s();" % typ, "print(h.held.count());"]
        elif place == "parameter":
            out.append("public int take(%s g) { return g.c; }" % typ)
            lines += ["%s g = new %s();" % (typ, typ), "print(take(g));"]
        elif place == "result":
            out.append("public %s make() { return new %s(); }" % (typ, typ))
            lines += ["%s g = make();" % typ, "print(g.count());"]
        elif place == "base":
            out.append("public object D extends %s { public int more() const { return c + 5; } }" % typ)
            lines += ["D d = new D();", "print(d.count());", "print(d.more());"]
        elif place == "new":
            lines += ["%s g;" % typ, "g = new %s();" % typ, "print(g.count());"]
        else:
            lines += ["%s g = new %s();" % (typ, typ), "print(g.count());"]
        if place in ("local", "new", "parameter", "result") and first not in BASIC:
            lines += ["%s x = new %s();" % (first, first), "x.set(4);", "g.put(x);", "print(g.take().get());", "print(g.count());"]
        out.append("public int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}" % "\n\t".join(lines))
        return "\n".join(out) + "\n"

    expect = {"parameter": ["0"], "base": ["1", "6"]}.get(place, ["1"])
    start = {"parameter": 0}.get(place, 1)
    if place in ("local", "new", "parameter", "result"):
        expect = expect + ["5", str(start + 2)]
    return {"mode": "constraint", "src": program(args), "allowed": allowed, "expect": ["start"] + expect, "what": "%s of G<%s> as <%s>" % (place, heads, ", ".join(args)),
            "place": place, "limited": any(limits)}


def gen(t):
    if t.bool(1, 4):
        return constraint(t)
    return G(t).run()


def restricted(case, env):
    got = env.slang(case["src"])
    labels = {"constraint allowed=%s" % case["allowed"]: 1, "constraint place=" + case["place"]: 1}
    failure = None
    if case["allowed"]:
        failure = compare_output("".join(x + "\n" for x in case["expect"]), 0, got)
    elif got.timeout or got.rc <= 0 or got.out:
        failure = {"what": "an instantiation its constraints forbid was not refused (%s)" % case["what"], "got": got.describe()}
    return Result(failure, case["limited"], case["src"], labels=labels)


def run(case, env):
    if case.get("mode"):
        return restricted(case, env)
    want = env.slang(case["special"])
    if want.rc != 0 or want.timeout:
        return Result(None, False, case["generic"], labels={"invalid": 1})
    got = env.slang(case["generic"])
    failure = None
    if got.timeout:
        return Result({"what": "the generic program does not end, the specialised one does", "got": got.describe()}, True, case["generic"])
    if got.rc != 0 or got.out != want.out:
        failure = {"what": "the generic program behaves differently from the specialised one", "rc": got.rc, "generic": got.out.decode("latin-1")[-1500:],
                   "specialised": want.out.decode("latin-1")[-1500:], "stderr": got.err.decode("latin-1")[-600:]}
    return Result(failure, case["insts"] >= 3 and case["same"] >= 2 and want.out.count(b"\n") >= 5, case["generic"], labels={"instantiations": case["insts"]})


def render(case):
    if case.get("mode"):
        return "// %s: %s\n%s" % (case["what"], "has to run" if case["allowed"] else "has to be refused", case["src"])
    return case["generic"] + "\n// ---- specialised\n" + case["special"]
