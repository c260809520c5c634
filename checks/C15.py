"""Namespaces and imports: generated declarations spread over nested namespaces and files; every reference resolves to the nearest declaration."""
from vlib import Result, compare_output

PROPERTY = "C15"
LEVEL = "exploration"
CASES = {"quick": 18000, "thorough": 60000}
RULE = ("case = 3 to 16 declarations (functions, classes, enumerations, variables; few names, so that they clash) in up to 6 nested namespaces, distributed over 1 to 5 files in "
        "up to 4 folders, often with the same name, with an import graph that contains cycles, self imports and repetitions, and references by short, relative and absolute names; one program in six lacks "
        "an import or a declaration it needs; non-trivial if at least two files or a name declared in two namespaces occur; distinct counts program texts")

FOLDERS = ["", "", "sub/", "other/", "sub/deep/"]
SPACES = ["", "N", "N.M", "P", "P.M", "N.M.N"]
FUNCS = ["f", "g", "h"]
CLASSES = ["C", "D", "K"]


class Decl:
    def __init__(self, kind, space, name, value):
        self.kind, self.space, self.name, self.value = kind, space, name, value
        self.file = 0
        self.refs = []
        self.param = None
        self.base = None

    @property
    def path(self):
        return (self.space + "." if self.space else "") + self.name


def parents(space):
    """The space and everything enclosing it, innermost first."""
    out = [space]
    while space:
        space = space.rpartition(".")[0]
        out.append(space)
    return out


class G:
    def __init__(self, t):
        self.t = t
        self.relative = t.bool(1, 40)
        self.relative_used = False
        self.decls = []
        self.index = {}
        spaces = [""] + t.sample(SPACES[1:], t.int(0, 4))
        spaces += [p for s in list(spaces) for p in parents(s) if p not in spaces]
        self.spaces = sorted(set(spaces))
        for i in range(t.int(3, 16)):
            kind = t.weighted([(6, "function"), (4, "class"), (2, "enum"), (2, "variable")])
            space = t.choice(self.spaces)
            name = t.choice({"function": FUNCS, "class": CLASSES, "enum": ["E"], "variable": ["v", "w"]}[kind])
            d = Decl(kind, space, name, t.int(1, 99))
            if d.path in self.index:
                continue
            self.refer(d)
            self.decls.append(d)
            self.index[d.path] = d
        self.nfiles = t.int(1, 5)
        # few names, so that files in different folders have the same one
        self.files = ["main.os"]
        while len(self.files) < self.nfiles:
            f = t.choice(FOLDERS) + t.choice(["F", "G", "H", "main"]) + ".os"
            if f not in self.files:
                self.files.append(f)
        for d in self.decls:
            d.file = t.below(self.nfiles)

    def lookup(self, space, name):
        """What a name used inside the space means; the first part binds to the nearest space that declares it."""
        first, _, rest = name.partition(".")
        for s in parents(space):
            p = (s + "." if s else "") + first
            if p in self.index or p in self.spaces:
                return self.index.get(p + ("." + rest if rest else ""))
        return None

    def written(self, d, space):
        """A name for d usable inside the space (checked when everything is declared)."""
        parts = d.path.split(".")
        return [".".join(parts[i:]) for i in range(len(parts))]

    def refer(self, d):
        t = self.t
        if d.kind in ("enum", "variable") or not self.decls:
            return
        for _ in range(t.int(0, 3)):
            d.refs.append(t.choice(self.decls))
        if d.kind == "function" and t.bool(1, 4):
            c = [x for x in self.decls if x.kind == "class"]
            if c:
                d.param = t.choice(c)
        if d.kind == "class" and t.bool(1, 3):
            c = [x for x in self.decls if x.kind == "class"]
            if c:
                d.base = t.choice(c)

    def name(self, d, space):
        c = [n for n in self.written(d, space) if self.lookup(space, n) is d]
        if not c:
            return None
        return self.t.choice(c) if len(c) == 1 or self.t.bool(3, 4) else c[0]

    def signature(self, d, space):
        """A name for d in a parameter list or as base class: absolute, except in the programs showing the known finding."""
        if self.relative:
            w = self.name(d, space)
            first = (w or "").partition(".")[0]
            if w is not None and sum(p.rpartition(".")[2] == first for p in list(self.index) + self.spaces) > 1:
                w = d.path if self.lookup(space, d.path) is d else None  # could mean something further out
            if w is not None and w != d.path:
                self.relative_used = True
            return w
        if not d.space and self.lookup(space, d.path) is not d:
            return None
        return d.path

    def use(self, r, space, n):
        """Statements adding r's value to the local x; None if it cannot be named here."""
        w = self.name(r, space)
        if w is None:
            return None
        if r.kind == "function":
            if r.param:
                a = self.name(r.param, space)
                if a is None:
                    return None
                return "%s p%d = new %s(); x = x + %s(p%d);" % (a, n, a, w, n)
            return "x = x + %s();" % w
        if r.kind == "class":
            if self.t.bool(1, 5):
                g = "Gen<%s>" % w
                return "%s q%d = new %s(new %s()); %s o%d = q%d.get(); x = x + o%d.get();" % (g, n, g, w, w, n, n, n)
            return "%s o%d = new %s(); x = x + o%d.get();" % (w, n, w, n)
        if r.kind == "enum":
            return "%s e%d = %s.b; x = x + cast<int>(e%d);" % (w, n, w, n)
        return "x = x + %s;" % w

    def total(self, d):
        if d.kind == "enum":
            return d.value + 1
        if d.kind == "variable":
            return d.value
        v = d.value + sum(self.total(r) for r in d.used)
        if d.param:
            v += self.total(d.param)
        if d.base and d.inherits:
            v += self.total(d.base)
        return v % 1000003

    def text(self, d):
        t = self.t
        d.used = []
        d.inherits = False
        if d.kind == "enum":
            return "public enum E { a = %d, b; }" % d.value
        if d.kind == "variable":
            return "public int %s = %d;" % (d.name, d.value)
        inner = d.space if d.kind == "function" else d.space
        body = ["int x = %d;" % d.value]
        for n, r in enumerate(d.refs):
            s = self.use(r, inner, n)
            if s is not None:
                body.append(s)
                d.used.append(r)
        if d.kind == "function":
            p = ""
            if d.param:
                a = self.signature(d.param, d.space)
                if a is None:
                    d.param = None
                else:
                    p = "%s arg" % a
                    body.append("x = x + arg.get();")
            return "public int %s(%s) {\n  %s\n  return x %% 1000003;\n }" % (d.name, p, "\n  ".join(body))
        head = "public object %s" % d.name
        if d.base:
            b = self.signature(d.base, d.space)
            if b is None:
                d.base = None
            else:
                head += " extends %s" % b
                d.inherits = True
                body.append("x = x + base.get();")
        return "%s {\n  public int get() const {\n  %s\n  return x %% 1000003;\n  }\n }" % (head, "\n  ".join(body))

    def reach(self, imports, start=0, skip=None):
        seen, todo = {start}, [start]
        while todo:
            for j in imports[todo.pop()]:
                if j not in seen and j != skip:
                    seen.add(j)
                    todo.append(j)
        return seen

    def importname(self, i, j):
        """Import statement of file j in file i: relative to the importing file's folder or else to the main folder."""
        fi, fj = self.files[i], self.files[j]
        folder = fi.rpartition("/")[0] + "/" if "/" in fi else ""
        full = fj[:-3].replace("/", ".")
        c = [fj[len(folder):-3].replace("/", ".")] if folder and fj.startswith(folder) else []
        if folder + fj not in self.files or not folder:
            c.append(full)
        return self.t.choice(c) if c else None

    def build(self):
        t = self.t
        texts = {}
        for d in self.decls:
            texts[d.path] = self.text(d)
        # bodies of Main: every declaration is used
        main = []
        expected = ["START"]
        for n, d in enumerate(self.decls):
            s = self.use(d, "", 100 + n)
            if s is None:
                continue
            main.append("x = 0; %s print(\"%s \" + cast<string>(x));" % (s, d.path))
            expected.append("%s %d" % (d.path, self.total(d)))
        imports = [[] for _ in range(self.nfiles)]
        for j in range(1, self.nfiles):
            imports[t.below(j)].append(j)
        for _ in range(t.int(0, 2 * self.nfiles)):
            imports[t.below(self.nfiles)].append(t.int(0, self.nfiles - 1))
        imports = [t.shuffle([j for j in l if self.importname(i, j)]) for i, l in enumerate(imports)]
        imports[0] += [j for j in range(self.nfiles) if j not in self.reach(imports)]
        bad = None
        if t.bool(1, 6):
            bad = self.spoil(t, imports, texts)
        blocks = [[] for _ in range(self.nfiles)]
        for d in self.decls:
            if d.path in texts:
                blocks[d.file].append(self.wrap(d.space, texts[d.path]))
        blocks = [t.shuffle(b) for b in blocks]
        gen = "public object Gen<T> { private T v; public void Constructor(T p) { v = p; } public T get() const { return v; } }"
        mainsrc = "public int Main(int argc, string args) modify {\nprint(\"START\");\nint x = 0;\n%s\nreturn 0;\n}" % "\n".join(main)
        blocks[0].insert(t.below(len(blocks[0]) + 1), gen)
        blocks[0].insert(t.below(len(blocks[0]) + 1), mainsrc)
        files = {}
        for i, f in enumerate(self.files):
            imp = ["import %s;" % self.importname(i, j) for j in imports[i]]
            files[f] = "\n".join(imp + blocks[i]) + "\n"
        return files, expected, bad

    def wrap(self, space, text):
        parts = space.split(".") if space else []
        if not parts:
            return text
        k = self.t.below(len(parts)) + 1 if self.t.bool(1, 4) else 1
        # "namespace A.B {" and nested blocks mean the same
        heads = [".".join(parts[:k])] + parts[k:]
        for h in reversed(heads):
            text = "public namespace %s {\n %s\n}" % (h, text)
        return text

    def spoil(self, t, imports, texts):
        """Makes a needed declaration unavailable."""
        if t.bool() and self.nfiles > 1:
            j = t.int(1, self.nfiles - 1)
            if any(d.file == j for d in self.decls):
                for l in imports:
                    l[:] = [x for x in l if x != j]
                return "import"
        c = [d for d in self.decls if self.lookup("", d.path) is d]
        c = [d for d in c if not any(o is not d and o.name == d.name for o in self.decls)]
        if not c:
            return None
        d = t.choice(c)
        del texts[d.path]
        return "declaration"


def gen(t):
    g = G(t)
    files, out, bad = g.build()
    names = [(d.kind, d.name) for d in g.decls]
    return {"files": files, "out": out, "bad": bad, "rich": len(files) > 1 or len(set(names)) < len(names), "n": len(files), "relative": g.relative_used}


def run(case, env):
    files = dict(case["files"])
    got = env.slang(files.pop("main.os"), files=files)
    labels = {"files %d" % case["n"]: 1}
    if case["bad"]:
        labels = {"missing " + case["bad"]: 1}
        failure = None
        if got.rc == 0 or b"START" in got.out:
            failure = "a program that lacks a needed %s is accepted (exit status %d, output %r)" % (case["bad"], got.rc, got.out[:80])
    else:
        failure = compare_output("".join(x + "\n" for x in case["out"]), 0, got)
        if failure and case["relative"] and got.rc == 255 and not got.out:
            return Result(failure, case["rich"], render(case), labels={"known": 1}, known="relative-signature")
    return Result(failure, case["rich"], render(case), labels=labels)


def render(case):
    return "".join("// %s\n%s" % (f, s) for f, s in sorted(case["files"].items()))
