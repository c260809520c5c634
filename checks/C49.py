"""Types at run time: names of types reported for values reached in all ways, known type names, and replicas of classes."""
from vlib import Result, compare_output

PROPERTY = "C49"
LEVEL = "exploration"
CASES = {"quick": 12000, "thorough": 60000}
RULE = ("case = program with a hierarchy of 2 to 6 classes (some in namespaces), replicas of them, interfaces, enums and generic classes and 8 to 24 statements that ask for "
        "the types of values reached through variables, members, parameters, results, casts and generic classes, ask for known type names, or do the same to an "
        "object and to one of a replica; non-trivial if at least 4 answers differ from the static type of what was asked or concern a replica; distinct counts program texts")

BASIC = [("int", ["1", "iv", "iv + 2", "-iv", "strlen(\"ab\")", "((E.b == E.b) ? 1 : 2)"]), ("string", ["\"\"", "sv", "sv + 1", "sv + sv", "\"x\" + dv"]), ("bool", ["true", "iv < 3", "!bv", "bv && iv > 2", "bv || false"]),
         ("double", ["1.5d", "dv", "dv * 2.0d", "-dv"]), ("float", ["2.5f", "fv"]), ("int64", ["3000000000", "cast<int64>(iv)", "lv"]), ("int16", ["cast<int16>(4)", "hv"]),
         ("E", ["E.a", "ev", "E.b"]), ("N.F", ["N.F.p", "nv"])]


class G:
    def __init__(self, t):
        self.t = t
        self.decl = []
        self.body = []
        self.out = []
        self.count = 0
        self.special = 0
        self.above = {}          # class -> set of types its objects are of
        self.base = {}
        self.kind = {}           # class -> "class" or "replica"
        self.like = {}           # replica -> what it replicates
        self.add = {}            # class -> number its methods add
        self.vars = []           # (name, static type, dynamic type)
        self.gens = set()
        self.known = {"int": True, "string": True, "bool": True, "double": True, "float": True, "E": True, "N.F": True, "I0": True, "I1": True, "Object": True, "Holder": True,
                      "": False, "Main": False, "iv": False, "integer": False, "E.a": False, "N": False, "F": False, "i0": False, "Ob": False, "K": False, "Box<": False}

    def classes(self):
        t = self.t
        for n in t.shuffle(["T%d" % i for i in range(t.int(2, 6))]):
            full = n
            plain = list(self.above)
            if plain and t.bool(1, 4):
                src = t.choice(plain)
                self.decl.append("public object %s replicates %s;" % (n, src))
                self.above[n] = (self.above[src] - {src}) | {n}
                self.kind[n] = "replica"
                self.like[n] = src
                self.base[n] = self.base[src]
                self.add[n] = self.add[src]
                self.known[n] = True
                continue
            base = t.choice(plain) if plain and t.bool(3, 5) else None
            inspace = base is None and t.bool(1, 4)
            impl = [x for x in ("I0", "I1") if t.bool(1, 3)] if not inspace else []
            if inspace:
                full = "N." + n
                self.known[n] = False
            add = t.int(1, 9)
            own = base is None
            m = []
            if own:
                m += ["public int v;", "protected string log;", "public void Constructor() { v = %d; log = \"%s\"; }" % (add, n.lower()),
                      "public void put(int x) modify { v = v + x; log = log + x; }", "public string text() const { return log + v; }"]
            m += ["public string me() const { return typeid(this); }", "public int plus(int x = %d) const { return x + %d; }" % (add, add)]
            m += ["public int i%s() const { return %d; }" % (x[1], add) for x in impl]
            text = "public object %s%s%s { %s }" % (n, " extends " + base if base else "", " implements " + ", ".join(impl) if impl else "", " ".join(m))
            if inspace:
                text = "public namespace N { %s }" % text
            self.decl.append(text)
            self.above[full] = {full, "Object"} | (self.above[base] if base else set()) | set(impl)
            self.kind[full] = "class"
            self.base[full] = base
            self.add[full] = add
            self.known[full] = True

    def var(self, static=None):
        c = [v for v in self.vars if static is None or v[1] == static]
        return self.t.choice(c) if c else None

    def note(self, static, dyn):
        self.count += 1
        if static != dyn or self.kind.get(dyn) == "replica":
            self.special += 1

    def new(self, n):
        t = self.t
        dyn = t.choice(sorted(self.above))
        static = t.choice(sorted(self.above[dyn] - {"Object"}))
        name = "v%d" % n
        self.body.append("%s %s = %s;" % (static, name, ("new %s()" % dyn) if static == dyn else "%s new %s()" % (static, dyn)))
        self.vars.append((name, static, dyn))

    def statement(self, n):
        t = self.t
        k = t.weighted([(3, "new"), (3, "typeid"), (2, "basic"), (2, "parameter"), (2, "result"), (2, "member"), (2, "generic"), (2, "known"), (2, "is"), (2, "method"), (3, "twin"), (1, "cast"),
                        (1, "alias"), (1, "caught"), (1, "fresh"), (1, "interface")])
        v = self.var()
        if k == "new" or (v is None and k not in ("basic", "known", "fresh", "twin", "caught")):
            self.new(n)
        elif k == "typeid":
            self.say("typeid(%s)" % v[0], v[2])
            self.note(v[1], v[2])
        elif k == "basic":
            typ, texts = t.choice(BASIC)
            self.say("typeid(%s)" % t.choice(texts), typ)
        elif k == "fresh":
            c = t.choice(sorted(self.above))
            self.say("typeid(new %s())" % c, c)
            self.note(c, c)
        elif k == "parameter":
            f = "p%d" % n
            self.decl.append("public string %s(%s x%s) { return typeid(x); }" % (f, v[1], t.choice(["", " const", " ref"])))
            self.say("%s(%s)" % (f, v[0]), v[2])
            self.note(v[1], v[2])
        elif k == "result":
            f = "r%d" % n
            dyn = t.choice(sorted(self.above))
            static = t.choice(sorted(self.above[dyn] - {"Object"}))
            self.decl.append("public %s %s() { return %snew %s(); }" % (static, f, "" if static == dyn else static + " ", dyn))
            if t.bool():
                self.say("typeid(%s())" % f, dyn)
            else:
                self.body.append("%s v%d = %s();" % (static, n, f))
                self.vars.append(("v%d" % n, static, dyn))
                self.say("typeid(v%d)" % n, dyn)
            self.note(static, dyn)
        elif k == "member":
            h = "H%d" % n
            self.decl.append("public object %s { public %s m; public string ask() const { return typeid(m); } }" % (h, v[1]))
            self.body.append("%s h%d = new %s(); h%d.m = %s;" % (h, n, h, n, v[0]))
            self.say(t.choice(["typeid(h%d.m)", "h%d.ask()"]) % n, v[2])
            self.note(v[1], v[2])
        elif k == "generic":
            arg = t.choice([v[1], "int", "string", "E"])
            g = t.choice(["Box", "Cell"])
            typ = "%s<%s>" % (g, arg)
            self.body.append("%s g%d = new %s();" % (typ, n, typ))
            self.known[typ] = True
            self.gens.add(typ)
            what = t.choice(["typeid(g%d)" % n, "g%d.me()" % n, "value"])
            if what == "value":
                if arg == v[1]:
                    self.body.append("g%d.v = %s;" % (n, v[0]))
                    self.say(t.choice(["typeid(g%d.v)", "g%d.inner()", "typeid(g%d.get())"]) % n, v[2])
                    self.note(v[1], v[2])
                else:
                    self.say(t.choice(["typeid(g%d.v)", "g%d.inner()", "typeid(g%d.get())"]) % n, arg)
                    self.count += 1
            else:
                self.say(what, typ)
                self.count += 1
        elif k == "known":
            name = t.choice(sorted(self.known))
            self.say("isKnownType(\"%s\")" % name, str(int(self.known[name])))
            self.count += 1
            if self.kind.get(name) == "replica":
                self.special += 1
        elif k == "is":
            typ = t.choice(sorted(set(self.above) | {"I0", "I1", "Object"}))
            self.say("\"\" + (%s is %s)" % (v[0], typ), str(int(typ in self.above[v[2]])))
            self.note(typ, v[2])
        elif k == "method":
            if v[1] in self.above and self.kind[v[2]] == "class" or v[1] == v[2]:
                self.say("%s.me()" % v[0], v[2])
                self.note(v[1], v[2])
        elif k == "cast":
            up = t.choice(sorted(self.above[v[2]] & (self.above[v[1]] if v[1] in self.above else {v[1]}) - {"Object"}))
            self.say("typeid(%s)" % t.choice(["cast<%s>(%s)", "%s %s"]) % (up, v[0]), v[2])
            self.note(up, v[2])
        elif k == "alias":
            self.body.append("%s v%d = %s;" % (t.choice([v[1], "var"]), n, v[0]))
            self.vars.append(("v%d" % n, v[1], v[2]))
            self.say("typeid(v%d)" % n, v[2])
            self.note(v[1], v[2])
        elif k == "caught":
            c = t.choice(sorted(self.above))
            self.body.append("try { throw new %s(); } catch ( %s e ) { print(typeid(e)); }" % (c, c))
            self.out.append(c)
            self.note(c, c)
        elif k == "interface":
            own = sorted(self.above[v[2]] & {"I0", "I1"})
            if own:
                i = t.choice(own)
                self.body.append("%s v%d = %s %s;" % (i, n, i, v[0]))
                self.vars.append(("v%d" % n, i, v[2]))
                self.say("typeid(v%d)" % n, v[2])
                self.note(i, v[2])
        else:
            c = t.choice(sorted(self.like) or sorted(self.above))
            d = self.like.get(c, c)
            self.body.append("%s a%d = new %s(); %s b%d = new %s();" % (d, n, d, c, n, c))
            for _ in range(t.int(1, 3)):
                x = t.int(0, 20)
                which = t.choice(["both", "a", "b"])
                if which == "both":
                    self.body.append("a%d.put(%d); b%d.put(%d);" % (n, x, n, x))
                else:
                    self.body.append("%s%d.put(%d);" % (which, n, x))
                    other = "b" if which == "a" else "a"
                    self.say("%s%d.text() == %s%d.text()" % (which, n, other, n), None)
                    self.body.append("%s%d.put(%d);" % (other, n, x))
                    self.out.append("0")
                self.say("a%d.text() == b%d.text()" % (n, n), "1")
                self.say("b%d.plus(%d)" % (n, x), str(x + self.add[c]))
                self.say("b%d.plus()" % n, str(2 * self.add[c]))
            self.say("\"\" + (b%d is %s) + (b%d is Object)" % (n, d, n), "11" if c == d else "01")
            self.special += c != d
            self.count += 1

    def say(self, text, answer):
        self.body.append("print(%s);" % text)
        if answer is not None:
            self.out.append(answer)


def gen(t):
    g = G(t)
    g.classes()
    for n in range(t.many(8, 24, 9)):
        g.statement(n)
    head = ["public enum E { a, b; }", "public namespace N { public enum F { p, q; } }", "public interface I0 { public int i0() const; }", "public interface I1 { public int i1() const; }"]
    tail = ["public object Holder { }"] + ["public object %s<X> { public X v; public string me() const { return typeid(this); } public string inner() const { return typeid(v); } public X get() const { return v; } }" % b
                                           for b in ("Box", "Cell")]
    basics = ["int iv = 5; string sv = \"s\"; bool bv = true; double dv = 0.5d; float fv = 1.5f; int64 lv = cast<int64>(7); int16 hv = cast<int16>(8); E ev = E.b; N.F nv = N.F.q;"]
    src = "\n".join(head + tail + g.decl) + "\npublic int Main(int argc, string args) modify throws {\n\t%s\n\treturn 0;\n}\n" % "\n\t".join(basics + g.body)
    return {"src": src, "out": g.out, "special": g.special, "count": g.count}


def run(case, env):
    got = env.slang(case["src"])
    return Result(compare_output("".join(x + "\n" for x in case["out"]), 0, got), case["special"] >= 4, case["src"], labels={"answers": case["count"], "special": case["special"]})


def render(case):
    return case["src"]
