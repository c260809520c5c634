"""Abstract types: generated hierarchies of interfaces, abstract, incomplete and final classes; forbidden uses have to be refused, calls have to reach an implementation."""
import sites
from vlib import Result

PROPERTY = "C19"
LEVEL = "exploration"
CASES = {"quick": 15000, "thorough": 50000}
RULE = ("case = hierarchy of 0 to 3 interfaces and 1 to 5 classes (abstract, concrete, incomplete, final methods), with either calls of every instantiable class through every "
        "type it has - the last one possibly a call nobody implements - or one forbidden use (instantiation of an interface, abstract class or class with abstract methods, "
        "extension of a final class, missing or superfluous method body) beside its allowed counterpart; non-trivial if the hierarchy has two levels and either a forbidden "
        "use or at least three calls; distinct counts program texts")

PARAMS = {"m0": "", "m1": "int a", "m2": "string a", "m3": "int a, int b"}
ARGS = {"m0": [""], "m1": ["1", "7"], "m2": ["\"x\"", "\"\""], "m3": ["1, 2", "3, 3"]}


class Face:
    def __init__(self, name, base, methods):
        self.name, self.base, self.own = name, base, methods

    def methods(self):
        return self.own + (self.base.methods() if self.base else [])

    def closure(self):
        return [self] + (self.base.closure() if self.base else [])


class Cls:
    def __init__(self, name, base, faces, marked):
        self.name, self.base, self.faces, self.marked = name, base, faces, marked
        self.own = {}           # method -> "plain" | "virtual" | "override" | "final" | "abstract"
        self.final = False

    def chain(self):
        c = self
        while c:
            yield c
            c = c.base

    def find(self, m):
        """the class whose implementation is called"""
        impl = [c for c in self.chain() if c.own.get(m, "abstract") != "abstract"]
        finals = [c for c in impl if c.own[m] == "final"]
        return finals[-1] if finals else impl[0] if impl else None

    def declared(self):
        r = []
        for c in self.chain():
            r += [m for m in c.own if m not in r]
        return r

    def types(self):
        r = [self]
        for c in self.chain():
            if c not in r:
                r.append(c)
            for f in c.faces:
                r += [x for x in f.closure() if x not in r]
        return r

    def abstract(self):
        return self.marked or "abstract" in self.own.values()


def hierarchy(t):
    faces = []
    for i in range(t.weighted([(2, 0), (4, 1), (3, 2), (1, 3)])):
        base = t.choice(faces) if faces and t.bool(1, 3) else None
        own = [m for m in sorted(PARAMS) if t.bool() and (not base or m not in base.methods())]
        faces.append(Face("I%d" % i, base, own))
    classes = []
    for i in range(t.weighted([(1, 1), (3, 2), (4, 3), (3, 4), (1, 5)])):
        base = t.choice(classes) if classes and t.bool(4, 5) else None
        c = Cls("A%d" % i, base, [f for f in faces if t.bool(1, 3)], t.bool(1, 4))
        taken = [f for b in (base.chain() if base else []) for f in b.faces]
        c.faces = [f for f in c.faces if f not in taken]
        wanted = [m for f in c.types() if isinstance(f, Face) for m in f.methods()]
        for m in sorted(PARAMS):
            above = base.find(m) if base else None
            if t.bool(4, 5) if m in wanted and not above else t.bool(2, 5):
                known = m in wanted or (base and m in base.declared())
                if not above and t.bool(1, 5):
                    c.own[m] = "abstract"
                else:
                    c.own[m] = t.weighted([(4, "plain"), (2, "virtual"), (2 if known else 0, "override"), (1, "final")])
        classes.append(c)
    return faces, classes


def header(m, kind):
    word = {"plain": "", "virtual": "virtual ", "override": "override ", "final": "final ", "abstract": "abstract "}[kind]
    return "public %sstring %s(%s) const" % (word, m, PARAMS[m])


def result(name, m):
    return "\"%s.%s:\"%s" % (name, m, "".join(" + cast<string>(%s) + \";\"" % p.split()[1] for p in PARAMS[m].split(", ") if p))


def declare(faces, classes, missing=None, superfluous=None):
    """`missing`: (class, method) without body, `superfluous`: (face or class, method) with a body it must not have"""
    out = []
    for f in faces:
        out.append("public interface %s%s {" % (f.name, " implements " + f.base.name if f.base else ""))
        for m in f.own:
            body = " { return \"%s\"; }" % m if superfluous == (f.name, m) else ";"
            out.append("\tpublic string %s(%s) const%s" % (m, PARAMS[m], body))
        out.append("}")
    for c in classes:
        rel = (" extends " + c.base.name if c.base else "") + (" implements " + ", ".join(f.name for f in c.faces) if c.faces else "")
        out.append("public %sobject %s%s {" % ("abstract " if c.marked else "final " if c.final else "", c.name, rel))
        for m, kind in sorted(c.own.items()):
            if kind == "abstract":
                body = " { return \"%s\"; }" % m if superfluous == (c.name, m) else ";"
            else:
                body = ";" if missing == (c.name, m) else " { return %s; }" % result(c.name, m)
            out.append("\t" + header(m, kind) + body)
        out.append("}")
    return out


def value(name, m, args):
    parts = [] if not args else [a.strip().strip("\"") for a in args.split(",")]
    return "%s.%s:%s" % (name, m, "".join(p + ";" for p in parts))


def gen_calls(t, faces, classes):
    out = declare(faces, classes)
    funs, body, expected = [], [], []
    n = 0
    calls = []
    dead = []
    for c in classes:
        if c.abstract():
            continue
        for ty in c.types():
            for m in (ty.declared() if isinstance(ty, Cls) else ty.methods()):
                (calls if c.find(m) else dead).append((c, ty, m))
    calls[:] = t.shuffle(calls)
    calls = calls[:t.int(1, 14)]
    last = t.choice(dead) if dead and t.bool(1, 2) else None
    for c, ty, m in calls + ([last] if last else []):
        n += 1
        args = t.choice(ARGS[m])
        create = "new %s()" % c.name
        if ty is not c:
            create = ty.name + " " + create
        how = t.choice(["local", "local", "function", "loop", "member"])
        if how == "local":
            body.append("\t%s v%d = %s; print(v%d.%s(%s));" % (ty.name, n, create, n, m, args))
        elif how == "loop":
            body.append("\tfor (int i%d = 0; i%d < 1; i%d++) { %s v%d = %s; print(v%d.%s(%s)); }" % (n, n, n, ty.name, n, create, n, m, args))
        elif how == "function":
            funs.append("public void f%d(%s o) throws { print(o.%s(%s)); }" % (n, ty.name, m, args))
            body.append("\t%s v%d = %s; f%d(v%d);" % (ty.name, n, create, n, n))
        else:
            funs.append("public object H%d { public %s o; public void Constructor(%s p) { o = p; } public void go() const throws { print(o.%s(%s)); } }"
                        % (n, ty.name, ty.name, m, args))
            body.append("\t%s v%d = %s; H%d h%d = new H%d(v%d); h%d.go();" % (ty.name, n, create, n, n, n, n, n))
        if c.find(m):
            expected.append(value(c.find(m).name, m, args))
    src = out + funs + ["public int Main(int argc, string args) modify throws {", "\tprint(\"<start>\");"] + body + ["\tprint(\"<end>\");", "\treturn 0;", "}", ""]
    labels = {"use": "calls", "dead call": bool(last), "final": any("final" in c.own.values() for c in classes)}
    return {"mode": "calls", "src": "\n".join(src), "expected": ["<start>"] + expected + ([] if last else ["<end>"]), "fails": bool(last), "labels": labels,
            "hidden": len(calls) > 2 and any(c.base for c in classes)}


def gen_forbidden(t, faces, classes):
    what = t.weighted([(6, "new"), (2, "final class"), (1, "missing body"), (1, "superfluous body")])
    labels = {"use": what}
    abstracts = [c.name for c in classes if c.abstract()] + [f.name for f in faces]
    pair = None
    if what == "final class":
        c = Cls("F0", t.choice([None] + classes), [], False)
        c.final = True
        d = Cls("F1", c, [], t.bool(1, 3))
        more = []
        e = d
        for i in range(t.below(3)):
            e = Cls("F%d" % (i + 2), e, [], False)
            more.append(e)
        bad = declare(faces, classes + [c, d] + more)
        c.final = False
        good = declare(faces, classes + [c, d] + more)
        use = t.choice(["", "%s z = new %s();" % (e.name, e.name)]) if not d.marked else ""
        pair = (bad, good, use, use)
    elif what == "missing body":
        c = Cls("F0", t.choice([None] + classes), [], t.bool(1, 3))
        m = t.choice(sorted(PARAMS))
        c.own[m] = t.choice(["plain", "virtual", "final"])
        pair = (declare(faces, classes + [c], missing=("F0", m)), declare(faces, classes + [c]), "", "")
    elif what == "superfluous body":
        owners = [(f.name, m) for f in faces for m in f.own] + [(c.name, m) for c in classes for m, k in c.own.items() if k == "abstract"]
        if owners:
            o = t.choice(owners)
            pair = (declare(faces, classes, superfluous=o), declare(faces, classes), "", "")
    if not pair:
        labels["use"] = "new"
        decl = declare(faces, classes)
        decl.append("public abstract object G0<T> { public T v; public T get() const { return v; } }")
        decl.append("public object G1<T> { public T v; public abstract T get() const; }")
        decl.append("public interface G3<T> { public T get() const; }")
        decl.append("public object Fine { public int v; }")
        target = t.choice(abstracts + ["G0<int>", "G1<string>", "G3<int>"])
        subs = [c.name for c in classes if not c.abstract() and target in [x.name for x in c.types()]]
        good_of = "%s new %s()" % (target, t.choice(subs)) if subs else None
        forms = ["z"]
        if "<" not in target:
            forms += ["argument", "result", "cast", "throw"]
        form = t.choice(forms)
        labels["form"] = form
        labels["of"] = "interface" if target[0] == "I" else "generic" if "<" in target else "class"
        if form == "z":
            bad = "%s z = new %s();" % (target, target)
            good = "%s z%s;" % (target, " = " + good_of if good_of else "")
        elif form == "argument":
            decl.append("public int take(%s o) { return 1; }" % target)
            bad = "q0 = take(new %s());" % target
            good = "%s z%s; " % (target, " = " + good_of if good_of else "") + ("q0 = take(z);" if good_of else "")
        elif form == "cast":
            up = t.choice([x.name for c in classes if c.name == target for x in c.types()] or ["Object"])
            bad = "%s z = %s new %s();" % (up, up, target)
            good = "%s z;" % up
        elif form == "throw":
            bad = "if (q0 < -5) { throw new %s(); }" % target
            good = "if (q0 < -5) { throw new Fine(); }"
        else:
            pair = (decl + ["public %s make() throws { return new %s(); }" % (target, target)], decl + ["public %s make() throws { %s z; return z; }" % (target, target)], "", "")
        if not pair:
            pair = (decl, decl, bad, good)
    site = sites.build(t, ["//DECL//"], [])
    labels.update(site.labels)
    texts = []
    for decl, use in ((pair[0], pair[2]), (pair[1], pair[3])):
        text = sites.text(site.pre, site.indent, [use] if use else [], site.post)
        texts.append(text.replace("//DECL//", "\n".join(decl)))
    return {"mode": "forbidden", "bad": texts[0], "good": texts[1], "labels": labels, "what": labels["use"], "hidden": any(c.base for c in classes)}


def gen_template(t):
    """a base class uses a method only its derived classes implement"""
    own = t.choice(["", "this."])
    depth = t.int(1, 3)
    out = ["public abstract object T0 {", "\tpublic abstract int part(int a) const throws;", "\tpublic int whole(int a) const throws { return %spart(a) + 1; }" % own, "}"]
    for i in range(1, depth + 1):
        out.append("public object T%d extends T%d {%s }" % (i, i - 1, " public int part(int a) const throws { return a * 2; }" if i == depth else ""))
    n = t.int(1, 20)
    out += ["public int Main(int argc, string args) modify throws {", "\tprint(\"<start>\");", "\tT%d o = new T%d();" % (depth, depth), "\tprint(o.whole(%d));" % n,
            "\tprint(\"<end>\");", "\treturn 0;", "}", ""]
    return {"mode": "calls", "src": "\n".join(out), "expected": ["<start>", str(2 * n + 1), "<end>"], "fails": False, "labels": {"use": "template"}, "hidden": False,
            "known": "abstract-own-call"}


def gen(t):
    if t.bool(1, 60):
        return gen_template(t)
    faces, classes = hierarchy(t)
    if t.bool(1, 2) or not any(c.abstract() for c in classes):
        if any(not c.abstract() for c in classes):
            return gen_calls(t, faces, classes)
    return gen_forbidden(t, faces, classes)


def run(case, env):
    labels = {"%s=%s" % x: 1 for x in case["labels"].items()}
    if case["mode"] == "forbidden":
        return Result(sites.judge(case["bad"], case["good"], env, case["what"]), case["hidden"], case["bad"], labels)
    got = env.slang(case["src"])
    if got.timeout:
        return Result("the program does not end: %s" % got.describe(), True, case["src"])
    failure = None
    lines = got.out.decode("latin-1").split("\nStack trace:")[0].split("\n")
    lines = [x for x in lines if x]
    if case.get("known") and got.rc == 255 and lines == ["<start>"] and b"NullPointerException: this.part" in got.err:
        return Result(None, False, case["src"], labels, known=case["known"])
    if lines != case["expected"]:
        failure = "printed %r, expected %r" % (lines, case["expected"])
    elif case["fails"] and (got.rc == 0 or got.rc < 0 or got.rc > 255):
        failure = "a call without implementation ends with status %d" % got.rc
    elif not case["fails"] and got.rc != 0:
        failure = "status %d instead of 0" % got.rc
    if failure:
        failure += "\n%s" % got.describe()
    return Result(failure, case["hidden"], case["src"], labels)


def render(case):
    return case["src"] if case["mode"] == "calls" else "// has to be refused\n%s\n// has to run\n%s" % (case["bad"], case["good"])
