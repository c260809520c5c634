"""Enumerations: generated declarations in all kinds of scopes, uses judged by the written values; ill-formed declarations and uses are rejected."""
from vlib import Result, compare_output

PROPERTY = "C14"
LEVEL = "exploration"
CASES = {"quick": 21000, "thorough": 70000}
RULE = ("case = program with 1 to 4 enumerations (global, in namespaces, in a class; same names in different scopes) with explicit and implicit values and 5 to 20 uses "
        "(casts, comparisons, switches, variables, members, parameters, results, generic instances, exceptions), one program in five with one ill-formed declaration or use; "
        "non-trivial if a value skips the predecessor's successor and at least 3 kinds of use occur, or the program is ill-formed; distinct counts program texts")

NAMES = ["E", "F", "G"]
MEMBERS = ["a", "b", "c", "d", "one", "two", "red", "x1", "E1", "last"]
PLACES = {"global": "", "ns": "N", "inner": "N.M", "class": "O"}


class Enum:
    def __init__(self, t, name, place):
        self.name, self.place = name, place
        self.path = (PLACES[place] + "." if PLACES[place] else "") + name
        self.members, self.text = [], []
        v = -1
        for m in t.sample(MEMBERS, t.int(1, 8)):
            how = t.weighted([(5, "next"), (3, "skip"), (1, "same"), (1, "far")])
            if how == "next" or how == "same":
                v += 1
                self.text.append(m if how == "next" else "%s = %d" % (m, v))
            elif how == "skip":
                v += t.int(2, 40)
                self.text.append("%s = %d" % (m, v))
            else:
                v += t.int(1, 1 << 27)
                self.text.append("%s = %d" % (m, v))
            self.members.append((m, v))
        if t.bool(1, 12) and v < 2147483647:
            self.text.append("limit = 2147483647")
            self.members.append(("limit", 2147483647))
        self.end = t.choice([";", ";", ""])

    def gaps(self):
        return any(v != i for i, (_, v) in enumerate(self.members))

    def decl(self):
        return "public enum %s { %s%s }" % (self.name, ", ".join(self.text), self.end)


class G:
    def __init__(self, t):
        self.t = t
        self.enums, seen = [], set()
        for _ in range(t.int(1, 4)):
            e = Enum(t, t.choice(NAMES), t.choice(sorted(PLACES)))
            if e.path not in seen:
                seen.add(e.path)
                self.enums.append(e)
        self.kinds = set()
        self.bodies = {}
        self.out = {}
        self.temp = 0

    def ref(self, e, scope):
        """Name of the enumeration as written inside the scope."""
        if e.place == scope and (scope != "inner") and self.t.bool():
            return e.name
        if scope == "inner" and e.place == "inner" and self.t.bool():
            return e.name
        if scope != "global" and any(o.name == e.name and o.place != e.place for o in self.enums) and e.place == "global":
            return None
        return e.path

    def member(self, e):
        return self.t.choice(e.members)

    def fresh(self):
        self.temp += 1
        return "v%d" % self.temp

    def cmp(self, op, a, b):
        return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]

    def use(self, scope):
        """Statements and the lines they print."""
        t = self.t
        e = t.choice(self.enums)
        r = self.ref(e, scope)
        if r is None:
            return [], []
        m, v = self.member(e)
        x = "%s.%s" % (r, m)
        k = t.choice(["cast", "print", "string", "compare", "compare", "variable", "assign", "switch", "switch", "function", "object", "int", "truth", "copy", "generic", "throw",
                      "static", "mixed", "order", "is", "loop"])
        self.kinds.add(k)
        n = self.fresh()
        if k == "cast":
            return ["print(cast<int>(%s));" % x], [v]
        if k == "print":
            return ["print(%s);" % x], [v]
        if k == "string":
            return ["print(cast<string>(%s) + \"|\");" % x], ["%d|" % v]
        if k == "compare":
            m2, v2 = self.member(e)
            op = t.choice(["==", "!=", "<", "<=", ">", ">="])
            if t.bool():
                return ["%s %s = %s.%s;" % (r, n, r, m2), "print(%s %s %s);" % (n, op, x)], [int(self.cmp(op, v2, v))]
            return ["print(%s %s %s.%s);" % (x, op, r, m2)], [int(self.cmp(op, v, v2))]
        if k == "variable":
            return ["%s %s = %s;" % (r, n, x), "print(cast<int>(%s));" % n, "print(%s);" % n], [v, v]
        if k == "assign":
            seq = [self.member(e) for _ in range(t.int(1, 3))]
            s = ["%s %s = %s;" % (r, n, x)]
            o = []
            for a, b in seq:
                s += ["%s = %s.%s;" % (n, r, a), "print(cast<int>(%s));" % n]
                o.append(b)
            return s + ["print(cast<int>(%s));" % x], o + [v]
        if k == "copy":
            m2, v2 = self.member(e)
            return ["%s %s = %s;" % (r, n, x), "%s w%s = %s;" % (r, n, n), "%s = %s.%s;" % (n, r, m2), "print(cast<int>(w%s));" % n, "print(cast<int>(%s));" % n], [v, v2]
        if k == "switch":
            cases = t.sample(e.members, t.int(1, len(e.members)))
            cases[:] = t.shuffle(cases)
            s = ["%s %s = %s;" % (r, n, x), "switch ( %s ) {" % n] + [" case %s.%s: { print(\"%s\"); break; }" % (r, a, a) for a, _ in cases]
            s += [" default: { print(\"default\"); break; }", "}"]
            return s, [m if (m, v) in cases else "default"]
        if k == "function":
            return ["print(cast<int>(pass_%s(%s)));" % (e.path.replace(".", "_"), x), "print(pass_%s(%s) == %s);" % (e.path.replace(".", "_"), x, x)], [v, 1]
        if k == "object":
            m2, v2 = self.member(e)
            h = "Hold_%s" % e.path.replace(".", "_")
            return ["%s %s = new %s(%s);" % (h, n, h, x), "print(cast<int>(%s.get()));" % n, "%s.m = %s.%s;" % (n, r, m2), "print(cast<int>(%s.m));" % n, "%s.set(%s);" % (n, x),
                    "print(%s.m == %s);" % (n, x)], [v, v2, 1]
        if k == "static":
            h = "Hold_%s" % e.path.replace(".", "_")
            return ["%s.s = %s;" % (h, x), "print(cast<int>(%s.s));" % h], [v]
        if k == "int":
            return ["int %s = %s;" % (n, x), "print(%s - 1);" % n], [v - 1]
        if k == "truth":
            return ["%s %s = %s;" % (r, n, x), "if ( %s ) print(\"set\"); else print(\"zero\");" % n], ["set" if v else "zero"]
        if k == "generic":
            return ["Gen<%s> %s = new Gen<%s>(%s);" % (r, n, r, x), "print(cast<int>(%s.get()));" % n], [v]
        if k == "throw":
            return ["try { throw %s; } catch ( %s e%s ) { print(cast<int>(e%s)); }" % (x, r, n, n)], [v]
        if k == "mixed":
            c = t.choice([v, v + 1 if v < 2147483647 else 0])
            return ["print(%s == %d);" % (x, c)], [int(v == c)]
        if k == "order":
            return ["print(cast<int>(%s) + cast<int>(%s) * 2);" % (x, x)], [((v * 3) + 2**31) % 2**32 - 2**31]
        if k == "is":
            return ["%s %s = %s;" % (r, n, x), "print(%s is %s);" % (n, r), "print(%s is int);" % n], [1, 0]
        m2, v2 = self.member(e)
        return ["%s %s = %s;" % (r, n, x), "int c%s = 0;" % n, "while ( %s != %s.%s ) { %s = %s.%s; c%s++; }" % (n, r, m2, n, r, m2, n), "print(c%s);" % n], [int(v != v2)]

    def bad(self):
        """An ill-formed use (statements) or a mutation of a declaration."""
        t = self.t
        e = t.choice(self.enums)
        m, v = self.member(e)
        x = "%s.%s" % (e.path, m)
        others = [o for o in self.enums if o is not e]
        k = t.choice(["order", "duplicate", "empty", "comma", "overflow", "unknown", "constant", "fromint", "initint", "plus"] + (["other", "compare", "init", "argument", "return"] if others else []))
        n = self.fresh()
        if k in ("order", "duplicate", "empty", "comma", "overflow"):
            if k == "order":
                i = t.below(len(e.members))
                e.text.insert(i + 1, "zz = %d" % t.int(0, e.members[i][1]))
            elif k == "duplicate":
                e.text.append(m)
                if e.members[-1][1] == 2147483647:
                    return k, None
            elif k == "empty":
                e.text = []
                e.end = ""
            elif k == "comma":
                e.end = ","
            else:
                if e.members[-1][1] != 2147483647:
                    e.text.append("zy = 2147483647")
                e.text.append("zz")
            return k, None
        if k == "unknown":
            return k, "print(cast<int>(%s.nosuch));" % e.path
        if k == "constant":
            return k, "%s = %s;" % (x, x)
        if k == "fromint":
            return k, "%s %s = %s; %s = %d;" % (e.path, n, x, n, v)
        if k == "initint":
            return k, "%s %s = %d;" % (e.path, n, v)
        if k == "plus":
            return k, "print(%s %s %s);" % (x, t.choice(["+", "-", "*"]), t.choice(["1", "1.5f", "\"s\""]))
        o = t.choice(others)
        y = "%s.%s" % (o.path, self.member(o)[0])
        if k == "other":
            return k, "%s %s = %s; %s = %s;" % (e.path, n, x, n, y)
        if k == "compare":
            return k, "print(%s %s %s);" % (x, t.choice(["==", "<", "!="]), y)
        if k == "argument":
            return k, "print(cast<int>(pass_%s(%s)));" % (e.path.replace(".", "_"), y)
        if k == "return":
            return k, "%s %s = pass_%s(%s);" % (o.path, n, e.path.replace(".", "_"), x)
        return k, "%s %s = %s;" % (e.path, n, y)

    def build(self):
        t = self.t
        body, expected = [], []
        parts = {s: ([], []) for s in PLACES}
        for _ in range(t.int(5, 20)):
            scope = t.weighted([(6, "global"), (2, "ns"), (1, "inner"), (2, "class")])
            s, o = self.use(scope)
            if scope == "global":
                body += s
                expected += o
            else:
                parts[scope][0].extend(s)
                parts[scope][1].extend(o)
        bad = self.bad() if t.bool(1, 5) else None
        if bad and bad[1]:
            body.insert(0, bad[1]) if t.bool() else body.append("if ( argc < 0 ) { %s }" % bad[1])
        calls = [("ns", "N.run();"), ("inner", "N.M.run();"), ("class", "O o = new O();\no.run();")]
        for s, c in calls:
            body.append(c)
            expected += parts[s][1]

        def decls(place):
            return "".join(" %s\n" % e.decl() for e in self.enums if e.place == place)

        def fn(place):
            return " public void run() modify {\n  %s\n }\n" % ("\n  ".join(parts[place][0]))

        top = [e.decl() for e in self.enums if e.place == "global"]
        order = t.bool()
        ns = [decls("ns"), " public namespace M {\n%s%s }\n" % (decls("inner"), fn("inner")) if order else " public namespace M {\n%s%s }\n" % (fn("inner"), decls("inner")), fn("ns")]
        ns[:] = t.shuffle(ns)
        top.append("public namespace N {\n%s}" % "".join(ns))
        cl = [decls("class"), fn("class")]
        top.append("public object O {\n%s}" % "".join(cl))
        tail = ["public object Gen<T> {\n private T v;\n public void Constructor(T p) { v = p; }\n public T get() const { return v; }\n}"]
        for e in self.enums:
            i = e.path.replace(".", "_")
            tail.append("public %s pass_%s(%s p) { return p; }" % (e.path, i, e.path))
            tail.append("public object Hold_%s {\n public %s m;\n public static %s s;\n public void Constructor(%s p) { m = p; }\n public %s get() const { return m; }\n"
                        " public void set(%s p) modify { m = p; }\n}" % (i, e.path, e.path, e.path, e.path, e.path))
        src = "\n".join(top + tail) + "\npublic int Main(int argc, string args) modify {\nprint(\"START\");\n%s\nreturn 0;\n}\n" % "\n".join(body)
        return src, ["START"] + [str(x) for x in expected], bad


def gen(t):
    g = G(t)
    src, out, bad = g.build()
    return {"src": src, "out": out, "bad": bad[0] if bad else None, "kinds": sorted(g.kinds), "gaps": any(e.gaps() for e in g.enums)}


def run(case, env):
    got = env.slang(case["src"])
    labels = dict.fromkeys(case["kinds"], 1)
    if case["bad"]:
        labels = {"ill-formed " + case["bad"]: 1}
        failure = None
        if got.rc == 0 or b"START" in got.out:
            failure = "an ill-formed enumeration or use (%s) is accepted (exit status %d, output %r)" % (case["bad"], got.rc, got.out[:80])
        elif got.crashed:
            failure = "crash: %s" % got.describe()
    else:
        failure = compare_output("".join(x + "\n" for x in case["out"]), 0, got)
    return Result(failure, bool(case["bad"]) or (case["gaps"] and len(case["kinds"]) >= 3), case["src"], labels=labels)


def render(case):
    return case["src"]
