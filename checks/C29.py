"""String and the wrapper objects of the library against Python, as histories on shared objects."""
import strs
import nat
from vlib import Result, compare_output

PROPERTY = "C29"
LEVEL = "exploration"
CASES = {"quick": 7500, "thorough": 40000}
CHUNK = 25
RULE = ("case = program of 15 to 45 operations on String, Integer, Double, Float, Boolean and Character objects held by variables that may share an "
        "object, the contents of all variables printed at the end; non-trivial if at least 3 operations change an object, at least 2 of "
        "them one held by two variables or through a chained operator, and at least 6 query one; distinct counts program texts")

IMPORTS = "".join("import System.%s;\n" % n for n in ("String", "Integer", "Double", "Float", "Boolean", "Character"))


class Obj:
    def __init__(self, v):
        self.v = v


def wrap32(x):
    return (x + 2 ** 31) % 2 ** 32 - 2 ** 31


def f64(x):
    return nat.text(x, "double")


class G:
    def __init__(self, t):
        self.t = t
        self.body = []
        self.out = []
        self.vars = {}          # name -> (kind, Obj)
        self.n = 0
        self.changes = self.shared = self.queries = 0
        self.labels = {}

    def of(self, kind):
        return sorted(n for n, (k, _) in self.vars.items() if k == kind)

    def emit(self, s):
        self.body.append("\t" + s)

    def show(self, e, v):
        """Prints an expression that has to be a string, an int or a bool."""
        self.emit("print(%s);" % e)
        self.out.append(v if isinstance(v, str) else str(int(v)))
        self.queries += 1

    def tried(self, e, ok, v):
        self.emit("try { print(%s); } catch { print(\"raised\"); }" % e)
        self.out.append((v if isinstance(v, str) else str(int(v))) if ok else "raised")
        self.queries += 1
        if not ok:
            self.labels["raised"] = self.labels.get("raised", 0) + 1

    def changed(self, o):
        self.changes += 1
        if sum(x is o for _, x in self.vars.values()) > 1:
            self.shared += 1

    # --- String -----------------------------------------------------------------------------------------------------------------------------
    def text(self):
        s = strs.gen_text(self.t)
        return strs.lit(s), s

    def part(self, x):
        t = self.t
        if x and t.bool(3, 5):
            i = t.below(len(x))
            s = x[i:i + t.int(1, 3)]
            if all(ord(c) < 128 for c in s):
                return strs.lit(s), s
        return self.text()

    def string(self):
        t = self.t
        n = t.choice(self.of("String"))
        o = self.vars[n][1]
        x = o.v
        k = t.choice(["CharAt", "Contains", "EndsWith", "IndexOf", "IndexOf2", "LastIndexOf", "Length", "Replace", "ReplaceAll", "ReplaceAll", "RemoveCharAt", "Split",
                      "SplitBy", "SplitBy", "StartsWith", "SubString", "SubString2", "ToLower", "ToLowerCase", "ToUpper", "ToUpperCase", "TrimLeft",
                      "TrimLeft1", "TrimRight", "TrimRight1", "Trim", "==", "==o", "<", "<o", "+", "+o", "chain", "<<", "<<", "<<", "<<o", "[]", "[,]", "[,]", "foreach", "assign",
                      "=", "rebind", "alias", "copy", "new", "literal"])
        self.labels[k] = 1
        i = t.int(-2, len(x) + 2)
        if k in ("CharAt", "[]"):
            self.tried("%s.CharAt(%d)" % (n, i) if k == "CharAt" else "%s[%d]" % (n, i), 0 <= i < len(x), x[i:i + 1])
        elif k == "[,]":
            j = t.int(-1, len(x) + 1)
            self.show('"<" + %s[%d, %d] + ">"' % (n, i, j), "<" + (x[i:j] if 0 <= i <= j <= len(x) else "") + ">")
        elif k in ("Contains", "EndsWith", "StartsWith"):
            if x and k != "Contains" and t.bool(2, 3):
                m = t.int(1, len(x))
                s = x[-m:] if k == "EndsWith" else x[:m]
                if any(ord(c) >= 128 for c in s):
                    s = "a"
                e = strs.lit(s)
            else:
                e, s = self.part(x)
            self.show("%s.%s(%s)" % (n, k, e), {"Contains": s in x, "EndsWith": x.endswith(s), "StartsWith": x.startswith(s)}[k])
        elif k == "IndexOf":
            e, s = self.part(x)
            self.show("%s.IndexOf(%s)" % (n, e), x.find(s))
        elif k == "IndexOf2":
            e, s = self.part(x)
            i = t.int(0, len(x))
            self.show("%s.IndexOf(%s, %d)" % (n, e, i), x.find(s, i))
        elif k == "LastIndexOf":
            e, s = self.part(x)
            self.show("%s.LastIndexOf(%s)" % (n, e), x.rfind(s))
        elif k == "Length":
            self.show("%s.Length()" % n, len(x))
        elif k in ("Replace", "ReplaceAll"):
            e, s = self.part(x)
            e2, s2 = self.text() if t.bool(2, 3) else (strs.lit("<%s>" % s), "<%s>" % s)
            if not s and k == "ReplaceAll":
                r = x
            else:
                r = x.replace(s, s2, 1 if k == "Replace" else -1)
            found = s in x if k == "Replace" else bool(s) and s in x
            self.show("%s.%s(%s, %s)" % (n, k, e, e2), found)
            o.v = r
            if found:
                self.changed(o)
        elif k == "RemoveCharAt":
            ok = 0 <= i < len(x)
            self.emit("try { %s.RemoveCharAt(%d); print(\"ok\"); } catch { print(\"raised\"); }" % (n, i))
            self.out.append("ok" if ok else "raised")
            if ok:
                o.v = x[:i] + x[i + 1:]
                self.changed(o)
        elif k in ("Split", "SplitBy"):
            if k == "Split":
                call, s = "Split()", " "
            else:
                e, s = self.part(x)
                if not s:
                    e, s = '"a"', "a"
                call = "SplitBy(%s)" % e
            self.emit("foreach ( string s : %s.%s ) { print(\"[\" + s + \"]\"); }" % (n, call))
            self.out += ["[%s]" % p for p in x.split(s)]
            self.queries += 1
        elif k == "foreach":
            self.emit("foreach ( string s : %s ) { print(\"[\" + s + \"]\"); }" % n)
            self.out += ["[%s]" % c for c in x]
            self.queries += 1
        elif k == "SubString":
            self.tried('"<" + %s.SubString(%d) + ">"' % (n, i), 0 <= i <= len(x), "<%s>" % x[max(i, 0):])
        elif k == "SubString2":
            m = t.int(0, len(x) + 1)
            self.tried('"<" + %s.SubString(%d, %d) + ">"' % (n, i, m), 0 <= i <= len(x), "<%s>" % x[max(i, 0):max(i, 0) + m])
        elif k in ("ToLower", "ToUpper"):
            self.show('"<" + cast<string>(%s.%s()) + ">"' % (n, k), "<%s>" % (strs.lower(x) if k == "ToLower" else strs.upper(x)))
        elif k in ("ToLowerCase", "ToUpperCase"):
            self.show('"<" + %s.%s() + ">"' % (n, k), "<%s>" % (strs.lower(x) if k == "ToLowerCase" else strs.upper(x)))
        elif k in ("TrimLeft", "TrimRight", "Trim"):
            o.v = {"TrimLeft": x.lstrip(" "), "TrimRight": x.rstrip(" "), "Trim": x.strip(" ")}[k]
            self.show('"<" + %s.%s() + ">"' % (n, k), "<%s>" % o.v)
            if o.v != x:
                self.changed(o)
        elif k in ("TrimLeft1", "TrimRight1"):
            ok = 0 <= i < len(x)
            if ok:
                o.v = x[i:] if k == "TrimLeft1" else x[:len(x) - i]
                self.changed(o)
            self.tried('"<" + %s.%s(%d) + ">"' % (n, k[:-1], i), ok, "<%s>" % o.v)
        elif k in ("==", "<", "+"):
            e, s = (strs.lit(x), x) if k == "==" and t.bool(1, 2) and all(ord(c) < 128 for c in x) else self.text()
            if k == "+":
                self.show('"<" + cast<string>(%s + %s) + ">"' % (n, e), "<%s>" % (x + s))
            else:
                neg = k == "==" and t.bool(1, 3)
                self.show("%s %s %s" % (n, "!=" if neg else k, e), (x == s) != neg if k == "==" else x < s)
        elif k in ("==o", "<o", "+o", "<<o"):
            m = t.choice(self.of("String"))
            y = self.vars[m][1].v
            if k == "+o":
                self.show('"<" + cast<string>(%s + %s) + ">"' % (n, m), "<%s>" % (x + y))
            elif k == "<<o":
                o.v = x + y
                if len(o.v) > 60:
                    o.v = x
                    return
                self.show('"<" + cast<string>(%s << %s) + ">"' % (n, m), "<%s>" % o.v)
                self.changed(o)
            else:
                self.show("%s %s %s" % (n, k[:-1], m), x == y if k == "==o" else x < y)
        elif k == "chain":
            parts, v = [], x
            for _ in range(t.int(2, 4)):
                if t.bool():
                    e, s = self.text()
                else:
                    e = t.choice(self.of("String"))
                    s = self.vars[e][1].v
                parts.append(e)
                v += s
            self.shared += 1
            self.show('"<" + cast<string>(%s) + ">"' % " + ".join([n] + parts), "<%s>" % v)
        elif k == "<<":
            e = n
            if len(x) > 40:
                return
            for _ in range(t.int(1, 3)):
                f, s = t.choice([self.text, self.integer_lit, lambda: ("true", "1"), lambda: ("false", "0"), lambda: ("2.5f", "2.5"), lambda: ("-0.25d", "-0.25")])()
                e += " << " + (f if not f.startswith("-") else "(%s)" % f)
                o.v += s
            self.changed(o)
            self.show('"<" + cast<string>(%s) + ">"' % e, "<%s>" % o.v)
        elif k == "assign":
            a = "v%d" % len(self.body)
            self.emit(t.choice(["string %s = %s;" % (a, n), "string %s; %s = %s;" % (a, a, n)]))
            self.show('"<" + %s + ">"' % a, "<%s>" % x)
        elif k == "=":
            e, s = self.text()
            o.v = s
            self.emit("%s = %s;" % (n, e))
            self.changed(o)
        elif k == "literal":
            e, s = self.text()
            j = t.int(0, len(s))
            self.show(t.choice(['"<" + (%s).SubString(%d) + ">"' % (e, j), '"<" + String(%s).SubString(%d) + ">"' % (e, j)]), "<%s>" % s[j:])
        else:
            self.share("String", n, k, lambda v: strs.lit(v))

    def integer_lit(self):
        v = self.t.int(0, 300)
        return str(v), str(v)

    def share(self, kind, n, k, source):
        t = self.t
        o = self.vars[n][1]
        same = self.of(kind)
        if k == "rebind":
            m = t.choice(same)
            self.emit("%s = %s;" % (m, n))
            self.vars[m] = (kind, o)
        elif k == "copy":
            m = t.choice(same)
            self.emit("%s = copy %s;" % (m, n))
            self.vars[m] = (kind, Obj(o.v))
        else:
            if len(same) > 5:
                return
            m = "%s%d" % (kind[0].lower(), self.n)
            self.n += 1
            if k == "alias":
                self.emit("%s %s = %s;" % (kind, m, n))
                self.vars[m] = (kind, o)
            else:
                self.emit("%s %s = new %s(%s);" % (kind, m, kind, n if kind != "Character" else "cast<string>(%s)" % n))
                self.vars[m] = (kind, Obj(o.v))

    # --- numbers ----------------------------------------------------------------------------------------------------------------------------
    def value(self, kind):
        t = self.t
        if kind == "Integer":
            return t.choice([t.int(0, 9), t.int(-9, 9), t.int(-100000, 100000), 2147483647, -2147483647])
        if kind == "Boolean":
            return t.bool()
        if kind == "Character":
            s = strs.gen_text(t)
            return s if all(ord(c) < 128 for c in s) else "u"
        return t.int(-4000, 4000) / 8.0

    def source(self, kind, v):
        if kind == "Integer":
            return str(v) if v >= 0 else "(%d)" % v
        if kind == "Boolean":
            return "true" if v else "false"
        if kind == "Character":
            return strs.lit(v)
        s = "%s%s" % (f64(abs(v)) if f64(abs(v)).find(".") >= 0 else f64(abs(v)) + ".0", "d" if kind == "Double" else "f")
        return s if v >= 0 else "(-%s)" % s

    def shown(self, kind, e):
        return {"Integer": "cast<int>(%s)", "Double": "cast<double>(%s)", "Float": "cast<float>(%s)", "Boolean": "cast<bool>(%s)", "Character": 'cast<string>(%s)',
                "String": '"<" + cast<string>(%s) + ">"'}[kind] % e

    def textof(self, kind, v):
        if kind in ("Integer", "Boolean"):
            return str(int(v))
        if kind == "Character":
            return v
        if kind == "String":
            return "<%s>" % v
        return f64(v)

    def operand(self, kind):
        t = self.t
        if t.bool():
            m = t.choice(self.of(kind))
            return m, self.vars[m][1].v
        v = self.value(kind)
        return self.source(kind, v), v

    def number(self, kind):
        t = self.t
        n = t.choice(self.of(kind))
        o = self.vars[n][1]
        k = t.choice(["show", "arith", "arith", "arith", "compare", "compare", "=", "=", "rebind", "assign", "assign", "alias", "copy", "new", "text"])
        if kind == "Character":
            k = t.choice(["show", "compare", "compare", "=", "rebind", "alias", "copy", "new"])
        if kind == "Boolean" and k == "arith":
            k = "compare"
        self.labels[kind + " " + k] = 1
        if k == "show":
            self.show(self.shown(kind, n), self.textof(kind, o.v))
        elif k == "text":
            if kind in ("Integer", "Boolean"):
                self.show('"<" + cast<string>(%s) + ">"' % n, "<%d>" % o.v)
        elif k == "assign":
            typ = {"Integer": "int", "Double": "double", "Float": "float", "Boolean": "bool"}[kind]
            a = "v%d" % len(self.body)
            if t.bool():
                self.emit("%s %s = %s;" % (typ, a, n))
            else:
                self.emit("%s %s; %s = %s;" % (typ, a, a, n))
            self.show(a, self.textof(kind, o.v))
        elif k == "=":
            v = self.value(kind)
            self.emit("%s = %s;" % (n, self.source(kind, v)))
            o.v = v[:1] if kind == "Character" else v
            self.changed(o)
        elif k == "compare":
            e, v = self.operand(kind)
            if kind == "Character":
                v = v[:1]
            op = t.choice({"Integer": ["==", "!=", "<", ">"], "Character": ["==", "!=", "<"]}.get(kind, ["==", "!="]))
            self.show("%s %s %s" % (n, op, e), {"==": o.v == v, "!=": o.v != v, "<": o.v < v, ">": o.v > v}[op])
        elif k == "arith":
            e, v = n, o.v
            for i in range(t.int(1, 3)):
                f, w = self.operand(kind)
                op = t.choice("+-*")
                if kind == "Integer" and t.bool(1, 4) and w not in (0, -1):
                    op = "/"
                r = {"+": lambda: v + w, "-": lambda: v - w, "*": lambda: v * w, "/": lambda: int(abs(v) // abs(w)) * (1 if (v < 0) == (w < 0) else -1)}[op]()
                if kind == "Integer":
                    r = wrap32(r)
                elif abs(r) > 2 ** 13 or r * 8 != int(r * 8):
                    break
                e = "(%s) %s %s" % (e, op, f) if i else "%s %s %s" % (e, op, f)
                v = r
                if i:
                    self.shared += 1
            if e == n:
                return
            if t.bool(1, 3):
                m = t.choice(self.of(kind))
                self.emit("%s = %s;" % (m, e))
                self.vars[m] = (kind, Obj(v))
                self.changes += 1
            else:
                self.show(self.shown(kind, e), self.textof(kind, v))
        else:
            self.share(kind, n, k, None)


def gen(t):
    g = G(t)
    for kind in ("String", "Integer", "Double", "Float", "Boolean", "Character"):
        for i in range(3 if kind == "String" else 2):
            n = "%s%s" % ("xyz"[i], kind[0])
            if kind == "String":
                e, v = g.text()
            else:
                v = g.value(kind)
                e = g.source(kind, v)
            g.emit("%s %s = new %s(%s);" % (kind, n, kind, e))
            g.vars[n] = (kind, Obj(v[:1] if kind == "Character" else v))
    for _ in range(t.many(15, 45, 14)):
        k = t.weighted([(10, "String"), (3, "Integer"), (1, "Double"), (1, "Float"), (1, "Boolean"), (1, "Character")])
        if k == "String":
            g.string()
        else:
            g.number(k)
    for n, (kind, o) in sorted(g.vars.items()):
        g.emit("print(%s);" % g.shown(kind, n))
        g.out.append(g.textof(kind, o.v))
    for n in g.of("String"):
        g.emit("print(%s.Length());" % n)
        g.out.append(str(len(g.vars[n][1].v)))
    src = IMPORTS + "\npublic int Main(int argc, string args) modify throws {\n%s\n\treturn 0;\n}\n" % "\n".join(g.body)
    return {"src": src, "out": g.out, "c": [g.changes, g.shared, g.queries], "labels": g.labels}


def run(case, env):
    got = env.slang(case["src"])
    c, s, q = case["c"]
    return Result(compare_output(strs.raw(case["out"]), 0, got), c >= 3 and s >= 2 and q >= 6, case["src"], labels=case["labels"])


def render(case):
    return case["src"]
