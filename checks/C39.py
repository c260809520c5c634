"""Shared state: variables of namespaces and static members, updated along generated histories from functions, methods and files; every read sees the latest write."""
from vlib import Result, compare_output

PROPERTY = "C39"
LEVEL = "exploration"
CASES = {"quick": 15000, "thorough": 60000}
RULE = ("case = 2 to 9 shared variables (integers, strings, booleans, floats, doubles, objects; global, in nested namespaces or static) with generated initial values, 1 to 8 routines "
        "(functions, static methods, methods of objects and of derived classes) in 1 to 4 files that read, assign, update, alias and shadow them, call each other, loop and throw, "
        "and a main function running them in a generated order; non-trivial if a variable is written in one routine and read in another; distinct counts program texts")

SPACES = ["", "N", "N.M", "P"]
WORDS = ["", "a", "xyz", "N", "0"]


def parents(space):
    out = [space]
    while space:
        space = space.rpartition(".")[0]
        out.append(space)
    return out


class Var:
    def __init__(self, i, kind, space, holder, init):
        self.name = "v%d" % i
        self.kind, self.space, self.holder, self.init = kind, space, holder, init

    def path(self):
        return ".".join(x for x in (self.space, self.holder, self.name) if x)


class Routine:
    def __init__(self, i, space, holder):
        self.name = "r%d" % i
        self.space, self.holder, self.ops = space, holder, []
        self.param = True


TYPE = {"int": "int", "string": "string", "bool": "bool", "double": "double", "float": "float", "object": "Cell"}


def literal(kind, v):
    if kind == "int":
        return str(v)
    if kind == "string":
        return '"%s"' % v
    if kind == "bool":
        return "true" if v else "false"
    return "%s%s" % (v, kind[0])


class G:
    def __init__(self, t):
        self.t = t
        self.vars = []
        for i in range(t.int(2, 9)):
            kind = t.weighted([(5, "int"), (2, "string"), (1, "bool"), (1, "double"), (1, "float"), (3, "object")])
            space = t.choice(SPACES)
            holder = t.choice(["A", "B"]) if t.bool(2, 5) else ""
            if holder:
                space = ""
            v = Var(i, kind, space, holder, None)
            if kind != "object" and t.bool(4, 5):
                v.init = self.value(kind)
            self.vars.append(v)
        self.routines = []
        for i in range(t.int(1, 8)):
            holder = t.weighted([(4, ""), (2, "A:static"), (2, "A:method"), (1, "B:static"), (2, "D:method"), (2, "G:method"), (2, "T:method")])
            r = Routine(i, t.choice(SPACES) if not holder else "", holder)
            r.ops = self.body(r, t.int(1, 6), 2)
            self.routines.append(r)
        self.main = Routine(99, "", "")
        self.main.ops = []
        for v in self.vars:
            if v.kind == "object":
                self.main.ops.append(("new", v, t.int(-5, 5)))
        self.main.ops[:] = t.shuffle(self.main.ops)
        self.main.ops = [("read", v) for v in self.vars if v.kind != "object" and t.bool(1, 2)] + self.main.ops
        self.main.ops += self.body(self.main, t.int(3, 14), 3)
        self.main.ops += [("read", v) for v in self.vars]
        self.nfiles = t.int(1, 4)

    def value(self, kind):
        t = self.t
        if kind == "int":
            return t.int(-9, 99)
        if kind == "string":
            return t.choice(WORDS)
        if kind == "bool":
            return t.bool()
        return t.choice([0.5, 1.25, 2.0, 7.75, -0.5, -3.0, -12.25])

    def body(self, r, n, depth):
        t = self.t
        ops = []
        for _ in range(n):
            k = t.weighted([(4, "read"), (5, "write"), (3, "update"), (5 if self.routines else 0, "call"), (2 if depth else 0, "loop"),
                            (1 if depth else 0, "try"), (1, "shadow"), (1, "parameter"), (1 if depth else 0, "if")])
            v = t.choice(self.vars)
            if k == "write":
                others = [w for w in self.vars if w.kind == v.kind and w is not v]
                if v.kind == "object":
                    j = t.below(3)
                    if j == 0:
                        ops.append(("new", v, t.int(-5, 5)))
                    elif j == 1 and others:
                        ops.append(("copy", v, t.choice(others)))
                    else:
                        ops.append(("field", v, t.int(-9, 9)))
                elif others and t.bool(1, 3):
                    ops.append(("copy", v, t.choice(others)))
                else:
                    ops.append(("set", v, self.value(v.kind)))
            elif k == "update":
                if v.kind == "int":
                    ops.append(("update", v, t.choice(["+=", "-=", "*=", "++", "--", "self"]), t.int(-3, 7)))
                elif v.kind == "string":
                    ops.append(("append", v, t.choice(WORDS)))
                elif v.kind == "object":
                    ops.append(("bump", v))
                else:
                    ops.append(("set", v, self.value(v.kind)))
            elif k == "call":
                # a static method may not call methods of its own class, not even for another object
                c = [x for x in self.routines if not (r.holder.endswith(":static") and x.holder == r.holder[0] + ":method")]
                if c:
                    ops.append(("call", t.choice(c), t.int(-9, 9)))
            elif k == "loop":
                ops.append(("loop", t.int(0, 3), self.body(r, t.int(1, 3), depth - 1)))
            elif k == "try":
                ops.append(("try", self.body(r, t.int(1, 3), depth - 1), t.bool(), self.body(r, t.int(0, 2), 0)))
            elif k == "if":
                ops.append(("if", v, self.body(r, t.int(1, 2), depth - 1)))
            elif k == "parameter":
                w = t.choice(self.vars)
                ops.append(("parameter", w) if w.kind == "int" and r.name != "r99" else ("read", w))
            else:
                ops.append((k, v))
        return ops

    # --- text

    def ref(self, v, r):
        t = self.t
        paths = [v.path()]
        if v.holder == "A" and t.bool(1, 3):
            paths.append(t.choice(["D.", "G."]) + v.name)
        if v.holder and (r.holder[:1] == v.holder or (v.holder == "A" and r.holder[:1] in ("D", "G"))):
            paths.append(v.name)
            if r.holder.endswith(":method"):
                paths.append("this." + v.name)
        if not v.holder and v.space in parents(r.space):
            paths.append(v.name)
        if v.space == "N.M" and "N" in parents(r.space):
            paths.append("M." + v.name)
        return t.choice(paths)

    def stmts(self, r, ops, ind):
        t = self.t
        pad = "\t" * ind
        out = []
        for op in ops:
            k = op[0]
            self.n += 1
            if k == "call":
                c = op[1]
                if c.holder.endswith(":method"):
                    h = c.holder[0]
                    out.append("%s%s o%d = new %s(%s); o%d.%s(%d);" % (pad, h, self.n, h, "", self.n, c.name, op[2]))
                else:
                    p = ".".join(x for x in (c.space, c.holder[:1], c.name) if x)
                    if not c.holder and c.space in parents(r.space) and t.bool():
                        p = c.name
                    out.append("%s%s(%d);" % (pad, p, op[2]))
                continue
            if k == "loop":
                out.append("%sfor ( int i%d = 0; i%d < %d; i%d++ ) {" % (pad, self.n, self.n, op[1], self.n))
                out += self.stmts(r, op[2], ind + 1)
                out.append(pad + "}")
                continue
            if k == "try":
                out.append(pad + "try {")
                out += self.stmts(r, op[1], ind + 1)
                if op[2]:
                    out.append(pad + "\tthrow 1;")
                out.append(pad + "}")
                out.append(pad + "catch ( int e ) {")
                out += self.stmts(r, op[3], ind + 1)
                out.append(pad + "}")
                continue
            v = op[1]
            w = self.ref(v, r)
            if v.holder and t.bool(1, 8):
                h = t.choice(["D", "G"]) if v.holder == "A" and t.bool() else v.holder
                out.append("%s%s q%d = new %s();" % (pad, h, self.n, h))
                w = "q%d.%s" % (self.n, v.name)
            if k == "read":
                out.append("%sprint(%s);" % (pad, w + ".v" if v.kind == "object" else w))
            elif k == "new":
                out.append("%s%s = new Cell(%d);" % (pad, w, op[2]))
            elif k == "copy":
                out.append("%s%s = %s;" % (pad, w, self.ref(op[2], r)))
            elif k == "field":
                out.append("%s%s.v = %d;" % (pad, w, op[2]))
            elif k == "bump":
                out.append("%s%s.bump();" % (pad, w))
            elif k == "set":
                out.append("%s%s = %s;" % (pad, w, literal(v.kind, op[2])))
            elif k == "append":
                out.append('%s%s = %s + "%s";' % (pad, w, self.ref(v, r), op[2]))
            elif k == "update":
                if op[2] in ("++", "--"):
                    out.append("%s%s%s;" % (pad, w, op[2]))
                elif op[2] == "self":
                    out.append("%s%s = %s + %d;" % (pad, w, self.ref(v, r), op[3]))
                else:
                    out.append("%s%s %s %d;" % (pad, w, op[2], op[3]))
            elif k == "parameter":
                out.append("%s%s = %s + p;" % (pad, w, self.ref(v, r)))
            elif k == "shadow":
                if v.kind in ("int", "string"):
                    lit = "77" if v.kind == "int" else '"loc"'
                    out.append("%sif ( true ) { %s %s = %s; %s = %s + %s; print(%s); }" % (pad, TYPE[v.kind], v.name, lit, v.name, v.name, lit, v.name))
                else:
                    out.append("%sprint(%s);" % (pad, w + ".v" if v.kind == "object" else w))
            elif k == "if":
                cond = {"int": w + " > 5", "string": w + ' == ""', "bool": w, "double": w + " > 1.0d", "float": w + " > 1.0f", "object": w + ".v < 0"}[v.kind]
                out.append("%sif ( %s ) {" % (pad, cond))
                out += self.stmts(r, op[2], ind + 1)
                out.append(pad + "}")
        return out

    def source(self):
        t = self.t
        self.n = 0
        files = [[] for _ in range(self.nfiles)]

        def place(space, text):
            for s in reversed(space.split(".") if space else []):
                text = "public namespace %s {\n%s\n}" % (s, text)
            files[t.below(self.nfiles)].append(text)

        def member(r):
            static = "static " if r.holder.endswith(":static") else ""
            return "\tpublic %svoid %s(int p) modify {\n%s\n\t}" % (static, r.name, "\n".join(self.stmts(r, r.ops, 2)))

        classes = {"A": [], "B": [], "D": [], "G": [], "T": []}
        for v in self.vars:
            decl = "public %%s%s %s%s;" % (TYPE[v.kind], v.name, "" if v.init is None else " = " + literal(v.kind, v.init))
            if v.holder:
                classes[v.holder].append("\t" + decl % "static ")
            else:
                place(v.space, decl % "")
        for r in self.routines:
            if r.holder:
                classes[r.holder[0]].append(member(r))
            else:
                place(r.space, "public void %s(int p) modify {\n%s\n}" % (r.name, "\n".join(self.stmts(r, r.ops, 1))))
        place("", "public object Cell {\n\tpublic int v;\n\tpublic void Constructor(int i) { v = i; }\n\tpublic void bump() modify { v = v + 1; }\n}")
        for f in files:
            f[:] = t.shuffle(f)
        body = self.stmts(self.main, self.main.ops, 1)
        # a base class has to be known first, so A, D and G share a file
        place("", "public object A {\n%s\n}\n\npublic object D extends A {\n%s\n}\n\npublic object G extends D {\n%s\n}" % tuple("\n".join(classes[c]) for c in "ADG"))
        place("", "public object B {\n%s\n}" % "\n".join(classes["B"]))
        place("", "public object T {\n%s\n}" % "\n".join(classes["T"]))
        files[0].append("public int Main(int argc, string args) modify {\n%s\n\treturn 0;\n}" % "\n".join(body))
        names = ["main"] + ["F%d" % i for i in range(1, self.nfiles)]
        texts = {}
        for i, f in enumerate(files):
            imports = "".join("import %s;\n" % n for j, n in enumerate(names) if j != i and j)
            texts[names[i] + ".os"] = imports + "\n" + "\n\n".join(f) + "\n"
        main = texts.pop("main.os")
        return main, texts

    # --- model

    def text_of(self, kind, v):
        if kind == "object":
            return str(v[0])
        if kind == "bool":
            return "1" if v else "0"
        if kind in ("double", "float"):
            s = "%f" % v
            return s.rstrip("0").rstrip(".")
        return str(v)

    def execute(self):
        self.steps = 0
        self.out = []
        self.state = {v: v.init if v.init is not None else {"int": 0, "string": "", "bool": False, "double": 0.0, "float": 0.0, "object": None}[v.kind] for v in self.vars}
        self.writers = {}
        self.shared = False
        self.step(self.main, self.main.ops, 0)
        return "".join(x + "\n" for x in self.out)

    def wrote(self, v, r):
        self.writers[v] = r

    def seen(self, v, r):
        if self.writers.get(v, r) is not r:
            self.shared = True

    def step(self, r, ops, p):
        s = self.state
        for op in ops:
            self.steps += 1
            if self.steps > 1500:
                raise OverflowError
            k = op[0]
            if k == "call":
                self.step(op[1], op[1].ops, op[2])
                continue
            if k == "loop":
                for _ in range(op[1]):
                    self.step(r, op[2], p)
                continue
            if k == "try":
                self.step(r, op[1], p)
                if op[2]:
                    self.step(r, op[3], p)
                continue
            v = op[1]
            if k == "shadow":
                if v.kind == "int":
                    self.out.append("154")
                    continue
                if v.kind == "string":
                    self.out.append("locloc")
                    continue
                k = "read"
            if k not in ("set", "new", "copy"):
                self.seen(v, r)
            if k not in ("read", "if"):
                self.wrote(v, r)
            if k == "read":
                self.out.append(self.text_of(v.kind, s[v]))
            elif k == "new":
                s[v] = [op[2]]
            elif k == "copy":
                self.seen(op[2], r)
                s[v] = s[op[2]]
            elif k == "field":
                s[v][0] = op[2]
            elif k == "bump":
                s[v][0] += 1
            elif k == "set":
                s[v] = op[2]
            elif k == "append":
                if len(s[v]) > 2000:
                    raise OverflowError
                s[v] += op[2]
            elif k == "update":
                o, x = op[2], op[3]
                y = s[v] + x if o in ("+=", "self") else s[v] - x if o == "-=" else s[v] * x if o == "*=" else s[v] + 1 if o == "++" else s[v] - 1
                s[v] = (y + 2**31) % 2**32 - 2**31
            elif k == "parameter":
                s[v] = (s[v] + p + 2**31) % 2**32 - 2**31
            elif k == "if":
                x = s[v]
                if {"int": lambda: x > 5, "string": lambda: x == "", "bool": lambda: x, "double": lambda: x > 1.0, "float": lambda: x > 1.0, "object": lambda: x[0] < 0}[v.kind]():
                    self.step(r, op[2], p)


def gen(t):
    g = G(t)
    try:
        expected = g.execute()
    except OverflowError:
        g.main.ops = [op for op in g.main.ops if op[0] in ("new", "read", "field", "bump")]
        expected = g.execute()
    main, files = g.source()
    kinds = {}
    for v in g.vars:
        kinds["static" if v.holder else "namespace" if v.space else "global"] = True
    return {"main": main, "files": files, "expected": expected, "shared": g.shared, "kinds": sorted(kinds), "nfiles": g.nfiles}


def render(case):
    return case["main"] + "".join("\n// %s\n%s" % kv for kv in sorted(case["files"].items())) + "\n// expected\n" + case["expected"]


def run(case, env):
    got = env.slang(case["main"], files=case["files"])
    labels = {k: 1 for k in case["kinds"]}
    labels["several files" if case["nfiles"] > 1 else "one file"] = 1
    return Result(compare_output(case["expected"], 0, got), case["shared"], render(case), labels)
