"""Dispatch: generated class hierarchies with overriding, base calls, shared state, interfaces and abstract classes against a model of objects."""
from vlib import Result, compare_output

PROPERTY = "C11"
LEVEL = "exploration"
CASES = {"quick": 15000, "thorough": 50000}
RULE = ("case = program with 2 to 6 classes in up to two trees, 0 to 3 interfaces (also based on each other) and calls, member accesses, type tests and casts through "
        "variables, parameters, members and collections of every static type, which are also bound to other objects; non-trivial if at least 3 calls reach an implementation above or below the static type of the "
        "call and the hierarchy has at least 3 levels or an interface; distinct counts program texts")

METHODS = ["m0", "m1", "m2", "m3"]


class Cls:
    def __init__(self, name, base, faces, abstract):
        self.name, self.base, self.faces, self.abstract = name, base, faces, abstract
        self.field = None                # own field name
        self.impl = {}                   # method -> (list of parts)
        self.mods = []                   # (method name, field, amount)
        self.ctor = None                 # (tag, amount, calls base)

    def chain(self):
        c = self
        while c:
            yield c
            c = c.base

    def fields(self):
        return [c.field for c in self.chain() if c.field]

    def find(self, m):
        for c in self.chain():
            if m in c.impl:
                return c
        return None

    def modifiers(self):
        return [x for c in self.chain() for x in c.mods]

    def types(self):
        r = []
        for c in self.chain():
            r.append(c.name)
            for f in c.faces:
                r += [g.name for g in f.closure()]
        return r

    def depth(self):
        return len(list(self.chain()))


class Face:
    def __init__(self, name, methods, bases):
        self.name, self.methods, self.bases = name, methods, bases

    def closure(self):
        r = [self]
        for b in self.bases:
            r += [x for x in b.closure() if x not in r]
        return r

    def all(self):
        return [m for f in self.closure() for m in f.methods]


class Obj:
    def __init__(self, cls):
        self.cls = cls
        self.f = {n: 0 for n in cls.fields()}


class G:
    def __init__(self, t):
        self.t = t
        self.out = []
        self.body = []
        self.funcs = []
        self.vars = []                   # (name, static type, Obj)
        self.far = 0
        self.rebound = 0
        self.faces = []
        for i in range(t.weighted([(3, 0), (3, 1), (2, 2), (1, 3)])):
            bases = [f for f in self.faces if t.bool(1, 2)]
            have = [m for b in bases for m in b.all()]
            own = [m for m in METHODS if m not in have and t.bool(1, 2)]
            self.faces.append(Face("I%d" % i, own, bases))
        self.classes = []
        for i in range(t.int(2, 6)):
            base = t.choice(self.classes) if self.classes and t.bool(5, 6) else None
            faces = [f for f in self.faces if t.bool(1, 3)]
            c = Cls("C%d" % i, base, faces, t.bool(1, 8))
            if not faces and base is None and False:
                pass
            if t.bool(2, 3):
                c.field = "f%d" % i
            for m in METHODS:
                if t.bool(2, 5):
                    self.implement(c, m)
            # everything the interfaces require has to be implemented somewhere
            for f in faces:
                for m in f.all():
                    if not c.find(m):
                        self.implement(c, m)
            for k in range(t.int(0, 2)):
                fs = c.fields()
                if fs:
                    c.mods.append(("mod%d_%d" % (i, k), t.choice(fs), t.int(1, 9), t.choice(["", "this."])))
            if t.bool(1, 2):
                fs = c.fields()
                up = next((x for x in c.chain() if x is not c and x.ctor), None)
                direct = c.base if c.base and c.base.ctor else None
                c.ctor = ("ctor%d" % i, t.choice(fs) if fs else None, t.int(1, 9), bool(direct) and t.bool(2, 3))
            self.classes.append(c)
        # abstract methods: an abstract root may declare a method that all its descendants implement
        self.abstracts = {}
        for c in self.classes:
            if c.abstract and c.base is None:
                for m in METHODS:
                    if m not in c.impl:
                        users = [d for d in self.classes if c in d.chain() and d is not c]
                        if all(d.find(m) for d in users) and t.bool():
                            self.abstracts.setdefault(c.name, []).append(m)

    def implement(self, c, m):
        t = self.t
        parts = [("text", "%s.%s" % (c.name, m))]
        for _ in range(t.int(0, 2)):
            k = t.weighted([(3, "base"), (3, "field"), (1, "basefield")])
            if k == "base" and c.base:
                ms = [x for x in METHODS if c.base.find(x)]
                if m in ms:
                    parts.append(("base", m))
                elif ms:
                    parts.append(("base", t.choice(ms)))
            elif k == "field":
                if c.fields():
                    parts.append(("field", t.choice(c.fields()), t.choice(["", "this."])))
            elif k == "basefield" and c.base and c.base.fields():
                parts.append(("field", t.choice(c.base.fields()), "base."))
        c.impl[m] = parts

    # the model
    def text(self, cls, m, obj):
        s = ""
        for p in cls.impl[m]:
            if p[0] == "text":
                s += p[1]
            elif p[0] == "field":
                s += "," + str(obj.f[p[1]])
            else:
                s += ">" + self.text(cls.base.find(p[1]), p[1], obj)
        return s

    def new(self, cls):
        o = Obj(cls)
        if cls.ctor:
            self.construct(cls, o)
        return o

    def construct(self, cls, o):
        tag, field, amount, up = cls.ctor
        if up:
            self.construct(cls.base, o)
        self.out.append(tag)
        if field:
            o.f[field] += amount

    # source
    def class_source(self, c):
        src = []
        if c.field:
            src.append("public int %s;" % c.field)
        ms = []
        if c.ctor:
            tag, field, amount, up = c.ctor
            ms.append("public void Constructor() { %sprint(\"%s\"); %s }" % ("base.Constructor(); " if up else "", tag, "%s = %s + %d;" % (field, field, amount) if field else ""))
        for m in self.abstracts.get(c.name, []):
            ms.append("public abstract string %s() const;" % m)
        for m, parts in c.impl.items():
            e = []
            for p in parts:
                if p[0] == "text":
                    e.append('"%s"' % p[1])
                elif p[0] == "field":
                    e.append('"," + cast<string>(%s%s)' % (p[2], p[1]))
                else:
                    e.append('">" + base.%s()' % p[1])
            ms.append("public %sstring %s() const { return %s; }" % (self.t.choice(["", "", "virtual "]) if not (c.base and c.base.find(m)) else self.t.choice(["", "", "override "]), m, " + ".join(e)))
        for name, field, amount, how in c.mods:
            ms.append("public void %s() modify { %s%s = %s%s + %d; }" % (name, how, field, how, field, amount))
        if self.t.bool(1, 3):
            ms[:] = self.t.shuffle(ms)
        head = "public %sobject %s" % ("abstract " if c.abstract else "", c.name)
        if c.base:
            head += " extends %s" % c.base.name
        if c.faces:
            head += " implements %s" % ", ".join(f.name for f in c.faces)
        return head + " {\n %s\n}" % "\n ".join(src + ms)

    def static(self, typ):
        """Methods, fields and modifiers usable through the static type."""
        for f in self.faces:
            if f.name == typ:
                return f.all(), [], []
        c = next(c for c in self.classes if c.name == typ)
        ms = [m for m in METHODS if c.find(m)] + [m for x in c.chain() for m in self.abstracts.get(x.name, []) if not c.find(m)]
        return ms, c.fields(), c.modifiers()

    def use(self, expr, typ, obj, quiet=False):
        """One use of the object through an expression of the static type."""
        t = self.t
        ms, fs, mods = self.static(typ)
        k = t.weighted([(6 if ms else 0, "call"), (2 if fs else 0, "read"), (2 if fs else 0, "write"), (3 if mods else 0, "mod"), (2, "is")])
        if k == "call":
            m = t.choice(ms)
            impl = obj.cls.find(m)
            if impl.name != typ:
                self.far += 1
            return "print(%s.%s());" % (expr, m), lambda: self.out.append(self.text(impl, m, obj))
        if k == "read":
            f = t.choice(fs)
            return "print(%s.%s);" % (expr, f), lambda: self.out.append(str(obj.f[f]))
        if k == "write" and not quiet:
            f = t.choice(fs)
            v = t.int(10, 99)
            return "%s.%s = %d;" % (expr, f, v), lambda: obj.f.__setitem__(f, v)
        if k == "mod" and not quiet:
            name, f, amount, _ = t.choice(mods)
            return "%s.%s();" % (expr, name), lambda: obj.f.__setitem__(f, obj.f[f] + amount)
        q = t.choice([c.name for c in self.classes] + [f.name for f in self.faces])
        return "print(%s is %s);" % (expr, q), lambda: self.out.append("1" if q in obj.cls.types() else "0")

    def do(self, st):
        self.body.append(st[0])
        st[1]()

    def name(self):
        return "v%d" % len(self.body)

    def up(self, typ):
        """Static types an expression of the given static type can be assigned to."""
        for f in self.faces:
            if f.name == typ:
                return [x.name for x in f.closure()]
        return next(c for c in self.classes if c.name == typ).types()

    def run(self):
        t = self.t
        conc = [c for c in self.classes if not c.abstract]
        if not conc:
            conc = [self.classes[-1]]
            conc[0].abstract = False
            self.abstracts.pop(conc[0].name, None)
        for i in range(t.int(1, 3)):
            self.create(t.choice(conc))
        for i in range(t.int(6, 20)):
            v, typ, obj = t.choice(self.vars)
            k = t.weighted([(2, "new"), (10, "use"), (4, "alias"), (2, "param"), (2, "member"), (1, "list"), (1, "cast"), (1, "result"), (5, "rebind")])
            if k == "new":
                self.create(t.choice(conc))
            elif k == "use":
                self.do(self.use(v, typ, obj))
            elif k == "rebind":
                self.rebind(typ)
            elif k == "alias":
                to = t.choice(self.up(typ))
                n = self.name()
                self.body.append("%s %s = %s;" % (to, n, v))
                self.vars.append([n, to, obj])
            elif k == "param":
                f = "g%d" % len(self.funcs)
                st = self.use("p", typ, obj)
                self.funcs.append("public void %s(%s p) { %s }" % (f, typ, st[0]))
                self.body.append("%s(%s);" % (f, v))
                st[1]()
            elif k == "member":
                f = "H%d" % len(self.funcs)
                st = self.use("it", typ, obj)
                self.funcs.append("public object %s { public %s it; public void Constructor(%s p) { it = p; } public void go() modify { %s } }" % (f, typ, typ, st[0]))
                n = self.name()
                self.body.append("%s %s = new %s(%s); %s.go();" % (f, n, f, v, n))
                st[1]()
                self.do(self.use(n + ".it", typ, obj, True))
            elif k == "list":
                same = [x for x in self.vars if x[1] == typ]
                pick = [t.choice(same) for _ in range(t.int(1, 4))]
                ms, fs, _ = self.static(typ)
                n = self.name()
                self.body.append("Gen<%s> %s = new Gen<%s>();" % (typ, n, typ))
                for i, x in enumerate(pick):
                    self.body.append("%s.e%d = %s;" % (n, i, x[0]))
                for i, x in enumerate(pick):
                    self.do(self.use("%s.e%d" % (n, i), typ, x[2], True))
            elif k == "cast":
                to = t.choice(self.up(typ))
                n = self.name()
                self.body.append("%s %s = cast<%s>(%s);" % (to, n, to, v))
                self.vars.append([n, to, obj])
            elif k == "result":
                f = "g%d" % len(self.funcs)
                to = t.choice(self.up(typ))
                self.funcs.append("public %s %s(%s p) { %s r = p; return r; }" % (to, f, typ, to))
                self.do(self.use("%s(%s)" % (f, v), to, obj, True))
        cs = []
        for f in self.faces:
            cs.append("public interface %s%s {\n %s\n}" % (f.name, " implements " + ", ".join(b.name for b in f.bases) if f.bases else "",
                                                          "\n ".join("public string %s() const;" % m for m in f.methods)))
        for c in self.classes:
            cs.append(self.class_source(c))
        if t.bool(1, 3):
            cs[:] = t.shuffle(cs)
        src = ["public object Gen<T> { public T e0; public T e1; public T e2; public T e3; }"] + cs + self.funcs
        src.append("public int Main(int argc, string args) {\n%s\nreturn 0;\n}" % "\n".join(self.body))
        return "\n".join(src) + "\n"

    def rebind(self, typ):
        """A variable, member, element or parameter gets another object, possibly of a class its current one is not related to."""
        t = self.t
        fit = [x for x in self.vars if typ in self.up(x[1])]
        a = t.choice([x for x in self.vars if x[1] == typ])
        b = t.choice([x for x in fit if x[2].cls is not a[2].cls] or fit)
        value = b[0] if b[1] == typ and t.bool() else "%s %s" % (typ, b[0])
        if a[2].cls not in b[2].cls.chain():
            self.rebound += 1
        how = t.weighted([(5, "variable"), (2, "element"), (2, "parameter"), (1, "local")])
        if how == "variable":
            self.body.append("%s = %s;" % (a[0], value))
            a[2] = b[2]
            self.do(self.use(a[0], typ, a[2], True))
        elif how == "element":
            n = self.name()
            self.body.append("Gen<%s> %s = new Gen<%s>();" % (typ, n, typ))
            for x in [a, b] + [t.choice(fit) for _ in range(t.int(0, 2))]:
                self.body.append("%s.e1 = %s;" % (n, x[0] if x[1] == typ else "%s %s" % (typ, x[0])))
                self.do(self.use(n + ".e1", typ, x[2], True))
        else:
            f = "g%d" % len(self.funcs)
            st = self.use("p", typ, b[2], True)
            st0 = self.use("p", typ, a[2], True)
            if how == "parameter":
                self.funcs.append("public void %s(%s p, %s q) { %s p = q; %s }" % (f, typ, typ, st0[0], st[0]))
            else:
                self.funcs.append("public void %s(%s o, %s q) { %s p = o; %s p = q; %s }" % (f, typ, typ, typ, st0[0], st[0]))
            q = b[0]
            if b[1] != typ:
                q = self.name()
                self.body.append("%s %s = %s;" % (typ, q, b[0]))
            self.body.append("%s(%s, %s);" % (f, a[0], q))
            st0[1]()
            st[1]()
            self.do(self.use(a[0], typ, a[2], True))

    def create(self, c):
        n = self.name()
        typ = self.t.choice(c.types()) if self.t.bool() else c.name
        o = self.new(c)
        self.body.append("%s %s = new %s();" % (typ, n, c.name))
        self.vars.append([n, typ, o])


def gen(t):
    g = G(t)
    src = g.run()
    deep = max(c.depth() for c in g.classes) >= 3 or any(c.faces for c in g.classes)
    return {"src": src, "out": g.out, "far": g.far, "deep": deep, "rebound": g.rebound}


def run(case, env):
    got = env.slang(case["src"])
    return Result(compare_output("".join(x + "\n" for x in case["out"]), 0, got), case["far"] >= 3 and case["deep"], case["src"], labels={"far calls": case["far"], "bound to objects of other classes": case["rebound"]})


def render(case):
    return case["src"]
