"""String interpolation: generated templates evaluated in generated scopes (globals, namespaces, members, parameters, locals in nested blocks)."""
from nat import text
from vlib import Result, compare_output

PROPERTY = "C37"
LEVEL = "exploration"
CASES = {"quick": 24000, "thorough": 100000}
RULE = ("case = program with variables of all native types as globals, namespace variables, members, static members, parameters and locals of nested blocks, some hiding others, "
        "whose values change and may themselves look like placeholders; templates of literal text, braces, known, unknown and malformed placeholders are evaluated at several places; "
        "non-trivial if at least two known placeholders are replaced; distinct counts program texts")

NAMES = ["a", "b", "cc", "x1", "value", "a_b", "i"]
TYPES = ["int", "int64", "string", "bool", "double", "float"]
OPEN, CLOSE = "{{{", "}}}"


def value(t, ty):
    if ty in ("int", "int64"):
        return t.int(-20, 20) if t.bool() else t.int(-2**31 + 1, 2**31 - 1)
    if ty == "bool":
        return t.bool()
    if ty in ("double", "float"):
        return t.int(-64, 64) / 8
    return t.choice(["", "s", "two words", "{{{a}}}", "{{{value}}}", "{", "}}}", "{{{", "{a}", "%s", "x{{{i}}}y"])


def lit(v, ty):
    if ty == "string":
        return '"%s"' % v
    if ty == "bool":
        return "true" if v else "false"
    return repr(v) + (ty[0] if ty in ("double", "float") else "")


def template(t, extra):
    parts = []
    for _ in range(t.int(1, 7)):
        k = t.below(12)
        if k < 6:
            parts.append(OPEN + t.choice(NAMES) + CLOSE)
        elif k < 9:
            parts.append(t.choice(["text", " ", "", "a", "end.", "{ }", "{", "}", "{{a}}", "()", ", ", "%d", "\t", "{}", "\n", "ä"]))
        elif k == 9:
            parts.append(OPEN + t.choice(["unknown", "A", "", " a", "a ", "a b", "aa", "1", "print", "f1", "O"]) + CLOSE)
        elif k == 10:
            parts.append(t.choice([OPEN + "a", "}}}", "{{{a}}", "{{a}}}", OPEN]))
        else:
            parts.append(extra)
    # runs of more than three braces have several readings
    out = ""
    for p in parts:
        if out.endswith(("{", "}")) and p[:1] == out[-1:]:
            out += "|"
        out += p
    return out


def evaluate(tpl, look):
    out, i, n = "", 0, 0
    while True:
        j = tpl.find(OPEN, i)
        if j < 0:
            return out + tpl[i:], n
        k = tpl.find(CLOSE, j + 3)
        if k < 0:
            return out + tpl[i:], n
        v = look(tpl[j + 3:k])
        if v is None:
            out += tpl[i:j + 3]
            i = j + 3
        else:
            n += 1
            out += tpl[i:j] + v
            i = k + 3


class G:
    def __init__(self, t):
        self.t = t
        self.out = []
        self.replaced = 0
        self.n = 0
        self.labels = {}
        glob = self.vars(0, 3)
        ns = self.vars(0, 2)
        members = self.vars(0, 3)
        statics = self.vars(0, 2, members)
        self.top = ["public %s %s = %s;" % (ty, n, lit(v, ty)) for n, (ty, v) in glob.items()]
        main, calls = [], []
        fs, ms, nfs = [], [], []
        kinds = [t.choice(["function", "function", "method", "namespace"]) for _ in range(t.int(1, 4))]
        for i, k in enumerate(kinds):
            f = "f%d" % (i + 1)
            params = self.vars(0, 3)
            chain = {"function": [glob], "namespace": [glob, ns], "method": [glob, statics, members]}[k]
            body, ret = self.body(chain + [params], 2)
            sig = "public string %s(%s)%s {\n\t\t%s\n\t}" % (f, ", ".join("%s %s" % (ty, n) for n, (ty, v) in params.items()), " modify" if k == "method" else "", "\n\t\t".join(body))
            {"function": fs, "method": ms, "namespace": nfs}[k].append(sig)
            name = {"function": f, "method": "o." + f, "namespace": "N." + f}[k]
            main.append("print(%s(%s));" % (name, ", ".join("cast<int64>(%s)" % lit(v, ty) if ty == "int64" else lit(v, ty) for _, (ty, v) in self.init(params))))
            calls.append(ret)
            self.labels[k] = self.labels.get(k, 0) + 1
        # the bodies are modelled in the order they are called, and each is called once
        self.top += fs
        self.top.append("public namespace N {\n\t%s\n}" % "\n\t".join(["public %s %s = %s;" % (ty, n, lit(v, ty)) for n, (ty, v) in self.init(ns)] + nfs))
        self.top.append("public object O {\n\t%s\n}" % "\n\t".join(
            ["public %s %s = %s;" % (ty, n, lit(v, ty)) for n, (ty, v) in self.init(members)] + ["public static %s %s = %s;" % (ty, n, lit(v, ty)) for n, (ty, v) in self.init(statics)] + ms))
        self.main = ["O o = new O();"] + main

    def vars(self, low, high, without=()):
        t = self.t
        r = {}
        for n in t.sample([n for n in NAMES if n not in without], t.int(low, high)):
            ty = t.choice(TYPES)
            r[n] = (ty, value(t, ty))
        self.start = getattr(self, "start", {})
        self.start[id(r)] = dict(r)
        return r

    def init(self, scope):
        return self.start[id(scope)].items()

    def body(self, chain, depth, ret=True):
        """Statements and, for a function body, the text it returns; output is recorded while generating."""
        t = self.t
        lines = []
        local = {}
        scopes = chain + [local]
        for _ in range(t.int(1, 4)):
            k = t.below(6)
            if k < 2:
                c = [n for n in NAMES if n not in local and not (ret and n in chain[-1])]
                if c:
                    n, ty = t.choice(c), t.choice(TYPES)
                    v = value(t, ty)
                    local[n] = (ty, v)
                    lines.append("%s %s = %s;" % (ty, n, lit(v, ty)))
            elif k == 2 and depth:
                inner, _ = self.body(scopes, depth - 1, False)
                lines.append("if ( true ) {\n\t\t\t%s\n\t\t}" % "\n\t\t\t".join(inner))
            elif k == 3:
                c = sorted({n for s in scopes for n in s})
                if c:
                    n = t.choice(c)
                    s = next(s for s in reversed(scopes) if n in s)
                    ty = s[n][0]
                    v = value(t, ty)
                    s[n] = (ty, v)
                    lines.append("%s = %s;" % (n, lit(v, ty)))
            else:
                text_ = self.eval(scopes, lines)
                self.out.append(text_[0])
                lines.append("print(%s);" % text_[1])
        if ret:
            v, e = self.eval(scopes, lines)
            lines.append("return %s;" % e)
            self.out.append(v)
            return lines, v
        return lines, None

    def eval(self, scopes, lines):
        t = self.t
        self.n += 1
        extra = OPEN + "tpl%d" % self.n + CLOSE
        tpl = template(t, extra)
        how = t.below(4)

        def look(name):
            if how == 1 and name == "tpl%d" % self.n:
                return tpl
            for s in reversed(scopes):
                if name in s:
                    ty, v = s[name]
                    return v if ty == "string" else text(v, ty)
            return None
        v, n = evaluate(tpl, look)
        self.replaced += n
        if how == 1:
            lines.append('string tpl%d = "%s";' % (self.n, tpl))
            return v, "streval(tpl%d)" % self.n
        if how == 2:
            cut = t.int(0, len(tpl))
            return v, 'streval("%s" + "%s")' % (tpl[:cut], tpl[cut:])
        if how == 3:
            return "<" + v + ">", '"<" + streval("%s") + ">"' % tpl
        return v, 'streval("%s")' % tpl

    def source(self):
        return "%s\n\npublic int Main(int argc, string args) modify {\n\t%s\n\treturn 0;\n}\n" % ("\n".join(self.top), "\n\t".join(self.main))


def gen(t):
    g = G(t)
    return {"source": g.source(), "expected": g.out, "replaced": g.replaced, "labels": g.labels}


def render(case):
    return case["source"] + "\n// expected\n" + "\n".join(case["expected"]) + "\n"


def run(case, env):
    got = env.slang(case["source"])
    return Result(compare_output("".join(x + "\n" for x in case["expected"]).encode(), 0, got), case["replaced"] >= 2, case["source"], case["labels"])
