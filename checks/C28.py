"""Native string functions against Python, on generated nested calls."""
import strs
from vlib import Result, compare_output

PROPERTY = "C28"
LEVEL = "exploration"
CASES = {"quick": 7500, "thorough": 40000}
CHUNK = 25
RULE = ("case = program of 16 to 40 nested calls of the native string functions on generated byte strings and positions, each inside its own "
        "handler; non-trivial if at least 8 calls return and at least 2 raise; distinct counts program texts")


class G:
    def __init__(self, t, p):
        self.t = t
        self.p = p          # string variables: name -> value

    def text(self, d=0):
        """(source, value)"""
        t = self.t
        k = t.weighted([(4, "var"), (3, "lit"), (0 if d > 2 else 7, "call")])
        if k == "var":
            n = t.choice(sorted(self.p))
            return n, self.p[n]
        if k == "lit":
            s = strs.gen_text(t)
            return strs.lit(s), s
        f = t.choice(["substr", "substr2", "strltrim", "strrtrim", "strtrim", "strlpad", "strrpad", "toLower", "toUpper", "strcat", "strncat", "strpos",
                      "strchr", "strrchr", "strstr", "strpbrk", "+"])
        a, x = self.text(d + 1)
        if f in ("strltrim", "strrtrim", "strtrim", "toLower", "toUpper"):
            g = {"strltrim": lambda s: s.lstrip(" "), "strrtrim": lambda s: s.rstrip(" "), "strtrim": lambda s: s.strip(" "),
                 "toLower": strs.lower, "toUpper": strs.upper}[f]
            return "%s(%s)" % (f, a), g(x)
        n = len(x)
        if f == "substr":
            i = t.int(-1, n + 2)
            return "substr(%s, %d)" % (a, i), self.raises(not 0 <= i <= n) or x[i:]
        if f == "substr2":
            i, k = t.int(-1, n + 2), t.int(0, n + 1)
            return "substr(%s, %d, %d)" % (a, i, k), self.raises(not 0 <= i <= n) or x[i:i + k]
        if f == "strpos":
            i = t.int(-1, n + 2)
            return "strpos(%s, %d)" % (a, i), self.raises(not 0 <= i <= n) or x[i:i + 1]
        if f in ("strlpad", "strrpad"):
            k = t.int(0, n + 5) if t.bool(9, 10) else t.int(-3, -1)
            c = t.choice(["x", " ", "0", "xy", ""]) if t.bool(1, 4) else t.choice("x 0-")
            v = self.raises(len(c) != 1 or k < 0)
            pad = c * (k - n) if k > n else ""
            return "%s(%s, %d, %s)" % (f, a, k, strs.lit(c)), v or (pad + x if f == "strlpad" else x + pad)
        if f in ("strcat", "+"):
            b, y = self.text(d + 1)
            return ("strcat(%s, %s)" if f == "strcat" else "(%s + %s)") % (a, b), x + y
        if f == "strncat":
            b, y = self.text(d + 1)
            k = t.int(0, len(y) + 2)
            return "strncat(%s, %s, %d)" % (a, b, k), x + y[:k]
        if f in ("strchr", "strrchr"):
            c = t.choice(x) if x and t.bool(4, 5) else t.choice("aqZ ")
            i = x.find(c) if f == "strchr" else x.rfind(c)
            return "%s(%s, %d)" % (f, a, ord(c)), self.raises(i < 0) or x[i:]
        b, y = self.sub(x, d)
        if f == "strstr":
            i = x.find(y)
        else:
            i = min([x.find(c) for c in y if c in x], default=-1)
        return "%s(%s, %s)" % (f, a, b), self.raises(i < 0) or x[i:]

    def sub(self, x, d):
        """A string that often occurs in x."""
        t = self.t
        if x and t.bool(3, 5):
            i = t.below(len(x))
            s = x[i:i + t.int(1, 3)]
            if all(ord(c) < 128 for c in s):
                return strs.lit(s), s
        return self.text(d + 1)

    def raises(self, cond):
        self.failed = self.failed or cond
        return ""

    def query(self):
        t = self.t
        f = t.choice(["strlen", "strfind", "strfind2", "strcmp", "strncmp", "strcoll", "strspn", "strcspn", "text", "text", "text"])
        a, x = self.text()
        if f == "text":
            return a, "[" + x + "]", True
        if f == "strlen":
            return "strlen(%s)" % a, str(len(x)), False
        if f in ("strfind", "strfind2", "strspn", "strcspn"):
            b, y = self.sub(x, 1)
            if f == "strfind":
                return "strfind(%s, %s)" % (a, b), str(x.find(y)), False
            if f == "strfind2":
                i = t.int(0, len(x) + 2)
                return "strfind(%s, %s, %d)" % (a, b, i), str(x.find(y, i) if i <= len(x) else -1), False
            n = 0
            while n < len(x) and (x[n] in y) == (f == "strspn"):
                n += 1
            return "%s(%s, %s)" % (f, a, b), str(n), False
        b, y = (a, x) if t.bool(1, 4) else self.text()
        if f == "strncmp":
            k = t.int(0, 9)
            x, y = x[:k], y[:k]
            args = "%s, %s, %d" % (a, b, k)
        else:
            args = "%s, %s" % (a, b)
        op = t.choice(["<", ">", "==", "<=", ">=", "!="])
        c = (x > y) - (x < y)
        r = {"<": c < 0, ">": c > 0, "==": c == 0, "<=": c <= 0, ">=": c >= 0, "!=": c != 0}[op]
        return "%s(%s) %s 0" % (f, args, op), str(int(r)), False


def gen(t):
    vs = {n: strs.gen_text(t, 12) for n in "abcd"}
    g = G(t, vs)
    body = ["\tstring %s = %s;" % (n, strs.lit(s)) for n, s in sorted(vs.items())]
    out = []
    good = bad = 0
    for _ in range(t.many(16, 40, 12)):
        g.failed = False
        e, v, bracket = g.query()
        out.append("raised" if g.failed else v)
        good += not g.failed
        bad += g.failed
        body.append("\ttry { print(%s); } catch { print(\"raised\"); }" % ('"[" + %s + "]"' % e if bracket else e))
    src = "public int Main(int argc, string args) modify throws {\n%s\n\treturn 0;\n}\n" % "\n".join(body)
    return {"src": src, "out": out, "good": good, "bad": bad}


def run(case, env):
    got = env.slang(case["src"])
    return Result(compare_output(strs.raw(case["out"]), 0, got), case["good"] >= 8 and case["bad"] >= 2, case["src"],
                  labels={"returned": case["good"], "raised": case["bad"]})


def render(case):
    return case["src"]
