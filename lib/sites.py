"""Programs with one exchangeable place.

A generated program contains one place (inside a function, method, constructor,
operator, ... below a chain of blocks, loops, switches and exception handlers;
executed or not, called or not).  The checks of the rules that have to be
enforced before anything runs fill the place twice: with a statement that breaks
the rule (the program must be refused before it prints anything) and with a
similar one that follows it (the program must run to its end).
"""

from vlib import Result

START = "<start>"
END = "<end>"

FILLER = [
    "q0 = q0 + 1;",
    "int {n} = q0;",
    "string {n} = \"x\";",
    "q1 = q1 + \"y\";",
    "if (q0 > 1000) { q0 = 0; }",
    "assert(q0 >= 0);",
    "{ int {n} = 4; q0 = q0 + {n}; }",
    "bool {n} = q0 < 3;",
    "// nothing to see here",
    "q0++;",
    "for (int {n} = 0; {n} < 2; {n}++) { q0 = q0 + {n}; }",
    "try { throw 5; } catch (int {n}) { q0 = q0 + {n}; }",
    "switch (q0) { case 99: { q0 = 1; break; } default: { q0 = q0 + 2; break; } }",
]

FRAMES = ["block", "if", "if-false", "else", "else-if", "while", "while-never", "for", "for-never", "case", "default",
          "try", "catch", "catch-never", "finally", "after-return", "after-break", "nested-blocks"]

HOSTS = ["main", "function", "void-function", "method", "const-method", "static-method", "constructor", "destructor",
         "operator", "namespace-function", "namespace-method", "generic-method", "overriding-method", "interface-method",
         "bool-function", "string-function", "parameter-function"]


class Site:
    """the text around the place"""

    def __init__(self):
        self.pre = []
        self.post = []
        self.labels = {}


def _name(t, st):
    st["n"] += 1
    return "w%d" % st["n"]


def _filler(t, st, indent):
    out = []
    for _ in range(t.weighted([(5, 0), (3, 1), (2, 2)])):
        text = t.choice(FILLER)
        if "{n}" in text:
            text = text.replace("{n}", _name(t, st))
        out.append("\t" * indent + text)
    return out


def _wrap(t, st, kind, ret):
    """-> (lines before, lines after), the place is in the innermost braces"""
    n = _name(t, st)
    if kind == "block":
        return ["{"], ["}"]
    if kind == "nested-blocks":
        return ["{ {"], ["} }"]
    if kind == "if":
        return ["if (q0 >= 0) {"], ["}"]
    if kind == "if-false":
        return ["if (q0 < 0) {"], ["}"]
    if kind == "else":
        return ["if (q0 < 0) { q0 = 0; } else {"], ["}"]
    if kind == "else-if":
        return ["if (q0 < 0) { q0 = 0; } else if (q0 >= 0) {"], ["} else { q0 = 1; }"]
    if kind == "while":
        return ["int %s = 0;" % n, "while (%s < 2) {" % n, "\t%s++;" % n], ["}"]
    if kind == "while-never":
        return ["while (q0 < 0) {"], ["}"]
    if kind == "for":
        return ["for (int %s = 0; %s < 2; %s++) {" % (n, n, n)], ["}"]
    if kind == "for-never":
        return ["for (int %s = 5; %s < 2; %s++) {" % (n, n, n)], ["}"]
    if kind == "case":
        return ["int %s = 1;" % n, "switch (%s) {" % n, "case 1: {"], ["break; }", "default: { break; }", "}"]
    if kind == "default":
        return ["int %s = 1;" % n, "switch (%s) {" % n, "case 7: { break; }", "default: {"], ["break; }", "}"]
    if kind == "try":
        return ["try {"], ["} catch (int %s) { q0 = 0; }" % n]
    if kind == "catch":
        return ["try { throw 3; } catch (int %s) {" % n], ["}"]
    if kind == "catch-never":
        return ["try { q0++; } catch (string %s) {" % n], ["}"]
    if kind == "finally":
        return ["try { q0++; } catch (int %s) { q0 = 0; } finally {" % n], ["}"]
    if kind == "after-return":
        return ["if (q0 < 0) {", "\treturn%s;" % ret], ["}"]
    if kind == "after-break":
        return ["for (int %s = 0; %s < 2; %s++) {" % (n, n, n), "\tbreak;"], ["}"]
    raise AssertionError(kind)


def build(t, declarations, locals_, hosts=None, frames=None, modify=True, throws=True, members=()):
    """-> Site.  `declarations`: lines in front of everything, `locals_`: lines in front of the place"""
    s = Site()
    st = {"n": 0}
    host = t.choice(hosts or HOSTS)
    called = t.bool(4, 5)
    depth = t.weighted([(3, 0), (4, 1), (4, 2), (2, 3)])
    kinds = [t.choice(frames or FRAMES) for _ in range(depth)]
    s.labels = {"host": host, "called": called or host == "main", "depth": depth, "frame": kinds[-1] if kinds else "top"}
    ret = {"function": " 1", "method": " 1", "const-method": " 1", "static-method": " 1", "main": " 0", "operator": " this", "namespace-function": " 1",
           "namespace-method": " 1", "generic-method": " 1", "overriding-method": " 1", "interface-method": " 1", "bool-function": " true",
           "string-function": " \"r\"", "parameter-function": " 1"}.get(host, "")

    pre, post = list(declarations), []
    head = {
        "function": ["public int Host() modify throws {"],
        "void-function": ["public void Host() modify throws {"],
        "bool-function": ["public bool Host() modify throws {"],
        "string-function": ["public string Host() modify throws {"],
        "parameter-function": ["public int Host(int p0, string p1 = \"d\") modify throws {"],
        "method": ["public object Host {", "\tpublic int m0;", "\tpublic int run() modify throws {"],
        "const-method": ["public object Host {", "\tpublic int m0;", "\tpublic int run() const throws {"],
        "static-method": ["public object Host {", "\tpublic int m0;", "\tpublic static int run() modify throws {"],
        "constructor": ["public object Host {", "\tpublic int m0;", "\tpublic void Constructor() throws {"],
        "destructor": ["public object Host {", "\tpublic int m0;", "\tpublic void Destructor() throws {"],
        "operator": ["public object Host {", "\tpublic int m0;", "\tpublic Host operator+(Host other) modify throws {"],
        "namespace-function": ["public namespace Around {", "public namespace Deeper {", "\tpublic int run() modify throws {"],
        "namespace-method": ["public namespace Around {", "public object Host {", "\tpublic int m0;", "\tpublic int run() modify throws {"],
        "generic-method": ["public object Host<T> {", "\tpublic T m0;", "\tpublic int run() modify throws {"],
        "overriding-method": ["public abstract object HostBase {", "\tpublic abstract int run() modify throws;", "}",
                              "public object Host extends HostBase {", "\tpublic int run() modify throws {"],
        "interface-method": ["public interface IHost {", "\tpublic int run() modify throws;", "}",
                             "public object Host implements IHost {", "\tpublic int run() modify throws {"],
    }
    use = {
        "function": "Host();", "void-function": "Host();", "bool-function": "Host();", "string-function": "Host();",
        "parameter-function": "Host(3);",
        "method": "Host host = new Host(); host.run();", "const-method": "Host host = new Host(); host.run();",
        "static-method": "Host.run();", "constructor": "Host host = new Host();", "destructor": "{ Host host = new Host(); }",
        "operator": "Host host = new Host(); host = host + host;",
        "namespace-function": "Around.Deeper.run();", "namespace-method": "Around.Host host = new Around.Host(); host.run();",
        "generic-method": "Host<int> host = new Host<int>(); host.run();",
        "overriding-method": "Host host = new Host(); host.run();", "interface-method": "Host host = new Host(); host.run();",
    }
    if not throws:
        head = {k: [x.replace(" throws", "") for x in v] for k, v in head.items()}
    if not modify:
        head = {k: [x.replace(" modify", "") for x in v] for k, v in head.items()}
    if members:
        head = {k: [y for x in v for y in ([x] + ["\t" + m for m in members] if x.startswith("public object Host") else [x])] for k, v in head.items()}
    # a generic class is only looked at when it is used
    if host == "generic-method":
        called = True
        s.labels["called"] = True
    start = "\tprint(\"%s\");" % START
    if host == "main":
        pre += ["public int Main(int argc, string args) modify throws {", start]
        base = 1
    else:
        pre += head[host]
        base = 1 if head[host][-1].startswith("public") else 2
    ind = "\t" * base
    pre += [ind + "int q0 = 0;", ind + "string q1 = \"\";"] + [ind + x for x in locals_]
    pre += _filler(t, st, base)
    tail = []
    level = base
    for k in kinds:
        a, b = _wrap(t, st, k, ret)
        pre += ["\t" * level + x for x in a]
        tail = ["\t" * level + x for x in b] + _filler(t, st, level) + tail
        level += 1
        pre += _filler(t, st, level)
    s.indent = "\t" * level
    tail = _filler(t, st, level) + tail
    post += tail
    if host == "main":
        post += ["\tprint(\"%s\");" % END, "\treturn 0;", "}"]
    else:
        if ret:
            post.append(ind + "return%s;" % ret)
        post += ["\t}" if base == 2 else "}"]
        if base == 2:
            post.append("}")
        if host in ("namespace-function", "namespace-method"):
            post.append("}")
        main = ["public int Main(int argc, string args) modify throws {", start]
        if called:
            main.append("\t" + use[host])
        main += ["\tprint(\"%s\");" % END, "\treturn 0;", "}"]
        post += main
    s.pre, s.post = pre, post
    return s


def text(site_pre, indent, lines, site_post):
    return "\n".join(site_pre + [indent + x for x in lines] + site_post) + "\n"


def judge(bad, good, env, what, files=None):
    """-> failure text or None"""
    g = env.slang(good, files=files or {})
    if g.rc != 0 or START.encode() not in g.out or END.encode() not in g.out:
        return "a valid program is refused (%s)\n%s" % (what, g.describe())
    if bad is None:
        return None
    b = env.slang(bad, files=files or {})
    if START.encode() in b.out or b.rc == 0:
        return "a program that has to be refused has been started (%s)\n%s" % (what, b.describe())
    if b.rc < 0 or b.timeout:
        return "the interpreter crashed or hung instead of refusing a program (%s)\n%s" % (what, b.describe())
    return None


def run(case, env):
    failure = judge(case["bad"], case["good"], env, case["what"])
    return Result(failure, True, case["bad"], labels={"%s=%s" % x: 1 for x in list(case["labels"].items()) + [("rule", case["what"])]})


def render(case):
    return "// rule: %s\n// ---- has to be refused\n%s\n// ---- has to run\n%s" % (case["what"], case["bad"] or "", case["good"])


def nest(t, indent, ret):
    """frames around a place in a hand written body -> (lines before, indentation of the place, lines after, labels); uses q0 and q1"""
    st = {"n": 0}
    depth = t.weighted([(3, 0), (4, 1), (3, 2), (1, 3)])
    kinds = [t.choice(FRAMES) for _ in range(depth)]
    ind = "\t" * indent
    pre, tail = [ind + "int q0 = 0;", ind + "string q1 = \"\";"] + _filler(t, st, indent), []
    level = indent
    for k in kinds:
        a, b = _wrap(t, st, k, ret)
        pre += ["\t" * level + x for x in a]
        tail = ["\t" * level + x for x in b] + _filler(t, st, level) + tail
        level += 1
        pre += _filler(t, st, level)
    return pre, "\t" * level, tail, {"depth": depth, "frame": kinds[-1] if kinds else "top"}
