"""Type rules are enforced before anything runs: programs with one ill-typed place are refused, the well-typed twin runs."""

import sites
from sites import render  # noqa: F401
from vlib import Result

PROPERTY = "C17"
LEVEL = "exploration"
CASES = {"quick": 15000, "thorough": 40000}
RULE = "one case = one program around one place, run once with an ill-typed and once with a well-typed text in that place"

DECLARATIONS = """
public enum E { e0, e1, e2; }
public enum F { f0, f1; }
public object A {
	public int m;
	public string t;
	public void Constructor(int x = 0) { m = x; t = ""; }
	public int get() const { return m; }
	public void set(int x) modify { m = x; }
	public string txt(int x, string y) const { return y; }
	public A self() const { return this; }
	public bool operator<(int x) const { return m < x; }
}
public object B {
	public int k;
}
public object C extends A {
	public int extra;
	public void Constructor(int x = 0) { base.Constructor(x); extra = 1; }
}
public int fi(int x) { return x; }
public int fdef(int x, int y = 2) { return x + y; }
public void fv() { }
public string fs(string x, int y) { return x; }
public bool fb(bool x) { return x; }
public double fd(double x) { return x; }
public A fa(A x) { return x; }
""".strip().split("\n")

LOCALS = ["int i = 4; double d = 1.5d; string s = \"s\"; bool b = true; int64 l = cast<int64>(7);",
          "A a = new A(3); B o = new B(); C c = new C(2); E e = E.e1; F f = F.f1;"]

# (what, ill-typed, well-typed) of type ...
EXPRESSIONS = {
    "int": [
        ("unknown name", "nope", "i"),
        ("unknown function", "nope(1)", "fi(1)"),
        ("unknown method", "a.nope()", "a.get()"),
        ("unknown member", "a.nope", "a.m"),
        ("unknown member of a call result", "fa(a).nope", "fa(a).m"),
        ("unknown method of a call result", "fa(a).nope()", "fa(a).get()"),
        ("member of another class", "o.m", "o.k"),
        ("member of a derived class", "a.extra", "c.extra"),
        ("method of another class", "o.get()", "a.get()"),
        ("member of a native value", "i.m", "a.m"),
        ("method of a native value", "i.get()", "c.get()"),
        ("argument type", "fi(\"x\")", "fi(5)"),
        ("argument type", "fi(a)", "fi(a.m)"),
        ("argument type", "fi(d)", "fi(cast<int>(d))"),
        ("argument type", "fi(b)", "fi(i)"),
        ("argument type", "fi(l)", "fi(cast<int>(l))"),
        ("missing argument", "fi()", "fi(1)"),
        ("additional argument", "fi(1, 2)", "fi(1)"),
        ("additional argument", "fdef(1, 2, 3)", "fdef(1, 2)"),
        ("missing argument", "fdef()", "fdef(1)"),
        ("argument type after a good one", "fdef(1, \"x\")", "fdef(1, 3)"),
        ("additional argument", "a.get(1)", "a.get()"),
        ("operands", "(i + s)", "(i + i)"),
        ("operands", "(i - true)", "(i - 2)"),
        ("operands", "(i * a)", "(i * a.m)"),
        ("operands", "(a + i)", "(a.m + i)"),
        ("operands", "(s * 2)", "(i * 2)"),
        ("operands", "(b + b)", "(i + i)"),
        ("operand", "(-s)", "(-i)"),
        ("operand", "(-a)", "(-i)"),
        ("cast", "cast<int>(a)", "cast<int>(d)"),
        ("cast to an unknown type", "cast<nope>(i)", "cast<int>(i)"),
        ("method without call", "a.get", "a.get()"),
        ("function without call", "fi", "fi(2)"),
        ("nested call argument", "fi(fi(s))", "fi(fi(3))"),
        ("nested argument", "a.txt(1, 2)", "strlen(a.txt(1, s))"),
        ("conditional branches", "((i == 1) ? i : a)", "((i == 1) ? i : 5)"),
    ],
    "bool": [
        ("comparison", "(i == s)", "(i == 1)"),
        ("comparison", "(i < s)", "(i < 3)"),
        ("comparison", "(i == a)", "(i == a.m)"),
        ("comparison", "(a == 1)", "(a.m == 1)"),
        ("comparison", "(a == o)", "(a == a)"),
        ("comparison", "(b < b)", "(i < i)"),
        ("comparison", "(e == f)", "(e == E.e2)"),
        ("comparison", "(a < s)", "(a < 7)"),
        ("unknown name", "(nope < 3)", "(i < 3)"),
        ("unknown name behind a decided operator", "(false && nope)", "(false && b)"),
        ("unknown name behind a decided operator", "(true || nope > 1)", "(true || i > 1)"),
        ("argument type", "fb(1)", "fb(true)"),
        ("argument type", "fb(s)", "fb(b)"),
        ("unknown type", "(a is Nope)", "(a is A)"),
        ("unknown enumeration value", "(e == E.nope)", "(e == E.e1)"),
    ],
    "string": [
        ("unknown name", "nope", "s"),
        ("operands", "(s - s)", "(s + s)"),
        ("operands", "(s + a)", "(s + a.t)"),
        ("argument type", "fs(1, 1)", "fs(\"1\", 1)"),
        ("argument type", "fs(s, s)", "fs(s, 1)"),
        ("argument order", "fs(1, s)", "fs(s, 1)"),
        ("cast", "cast<string>(a)", "cast<string>(i)"),
        ("member of a native value", "s.t", "a.t"),
        ("unknown member", "c.nope", "c.t"),
        ("argument order", "a.txt(s, 1)", "a.txt(1, s)"),
    ],
    "A": [
        ("another class", "o", "a"),
        ("another class", "(new B())", "(new A())"),
        ("base class parameter", "fa(o)", "fa(a)"),
        ("constructor argument", "(new A(\"x\"))", "(new A(2))"),
        ("additional constructor argument", "(new A(1, 2))", "(new A(1))"),
        ("unknown class", "(new Nope())", "(new A())"),
        ("native value", "5", "a"),
        ("native value", "s", "a.self()"),
        ("cast between classes", "cast<A>(o)", "a"),
    ],
    "E": [
        ("another enumeration", "F.f1", "E.e1"),
        ("another enumeration", "f", "e"),
        ("unknown enumeration value", "E.nope", "E.e2"),
        ("value of another enumeration", "E.f1", "E.e0"),
    ],
}

# where an expression of a type may be used; {} is the expression
CONTEXTS = {
    "int": ["int z = {};", "i = {};", "i += {};", "int z = 1 + {};", "int z = {} * 2;", "int z = (({}));", "z0 = fi({});", "z0 = fdef(1, {});", "z0 = fdef({});",
            "a.set({});", "a.m = {};", "A z = new A({});", "if ({} == 1) { z0 = 1; }", "while ({} < -100000) { z0 = 1; }",
            "for (int z = 0; z < {} - 100000; z++) { z0 = 1; }", "switch ({}) { case 1: { break; } default: { break; } }",
            "bool z = b && ({} > 0);", "bool z = false && ({} > 0);", "bool z = !({} > 0);", "int z = (b ? {} : 0);", "int z = (b ? 0 : {});",
            "assert({} == {} || true);", "print(cast<string>({}));", "s = cast<string>({});", "z0 = fi(fi({}));", "int z = -({});", "fi({});",
            "if (i == 1) { z0 = 1; } else if ({} > 1) { z0 = 2; }", "string z = s + ({});", "int z = (1 + (2 * (3 - {})));"],
    "bool": ["bool z = {};", "b = {};", "bool z = !{};", "bool z = b && {};", "bool z = {} || b;", "if ({}) { z0 = 1; }", "if (!{}) { z0 = 1; }",
             "while ({} && false) { z0 = 1; }", "for (int z = 0; {} && z < 0; z++) { z0 = 1; }", "z0 = ({} ? 1 : 2);", "b = fb({});",
             "if (i == 1) { z0 = 1; } else if ({}) { z0 = 2; }", "assert({} || true);", "bool z = (b == {});", "bool z = false && {};"],
    "string": ["string z = {};", "s = {};", "s += {};", "string z = s + {};", "string z = {} + \"x\";", "s = fs({}, 1);", "a.t = {};", "print({});",
               "bool z = ({} == s);", "s = a.txt(1, {});", "string z = (b ? {} : s);", "if ({} == s) { z0 = 1; }", "print(fs({}, 2) + s);", "z0 = strlen({});"],
    "A": ["A z = {};", "a = {};", "A z = fa({});", "a = fa({}).self();", "fa({});", "a = (fa({}));"],
    "E": ["E z = {};", "e = {};", "bool z = (e == {});", "if ({} == e) { z0 = 1; }"],
}

STATEMENTS = [
    ("initialiser", "int z = \"x\";", "int z = 3;"),
    ("initialiser", "double z = \"x\";", "double z = 3.5d;"),
    ("initialiser", "int z = a;", "int z = a.m;"),
    ("initialiser", "string z = a;", "string z = a.t;"),
    ("initialiser", "C z = a;", "A z = c;"),
    ("initialiser", "A z = 5;", "A z = new A(5);"),
    ("initialiser", "int z = fv();", "int z = fi(1);"),
    ("assignment", "i = s;", "i = 5;"),
    ("assignment", "i = a;", "i = a.m;"),
    ("assignment", "d = s;", "d = 2.5d;"),
    ("assignment", "s = a;", "s = a.t;"),
    ("assignment", "a = 1;", "a = new A(1);"),
    ("assignment", "a.m = \"x\";", "a.m = 4;"),
    ("assignment", "a.t = a;", "a.t = \"x\";"),
    ("assignment", "c.m = s;", "c.m = i;"),
    ("assignment", "e = f;", "e = E.e2;"),
    ("assignment", "e = 1;", "e = E.e1;"),
    ("assignment to a value", "5 = i;", "i = 5;"),
    ("assignment to a call", "fi(1) = 2;", "i = fi(2);"),
    ("assignment to a function", "fi = 5;", "i = 5;"),
    ("assignment to a method", "a.get = 1;", "a.m = 1;"),
    ("compound assignment", "i += \"x\";", "i += 2;"),
    ("compound assignment", "i -= true;", "i -= 1;"),
    ("compound assignment", "s += a;", "s += a.t;"),
    ("compound assignment", "a += 1;", "a.m += 1;"),
    ("increment", "s++;", "i++;"),
    ("increment", "b++;", "i++;"),
    ("decrement", "s--;", "i--;"),
    ("increment", "a++;", "a.m++;"),
    ("increment", "a.t++;", "a.m--;"),
    ("unknown type", "Nope z;", "B z;"),
    ("unknown type", "Nope z = new Nope();", "B z = new B();"),
    ("unknown name", "nope = 1;", "i = 1;"),
    ("unknown function", "nope();", "fv();"),
    ("unknown method", "a.nope();", "a.get();"),
    ("unknown member", "a.nope = 1;", "a.m = 1;"),
    ("method arguments", "a.set();", "a.set(1);"),
    ("method arguments", "a.set(1, 2);", "a.set(2);"),
    ("method arguments", "a.set(s);", "a.set(i);"),
    ("declared twice", "int z = 1; int z = 2;", "int z = 1; int zz = 2;"),
    ("declared twice", "int z = 1; string z = \"x\";", "int z = 1; string y = \"x\";"),
    ("name used outside of its block", "{ int z = 1; } i = z;", "{ int z = 1; i = z; }"),
    ("name used outside of its loop", "for (int z = 0; z < 1; z++) { } i = z;", "for (int z = 0; z < 1; z++) { i = z; }"),
    ("name used outside of its handler", "try { throw 1; } catch (int z) { } i = z;", "try { throw 1; } catch (int z) { i = z; }"),
    ("name used before its declaration", "i = z; int z = 1;", "int z = 1; i = z;"),
    ("iteration", "foreach (int z : i) { }", "for (int z = 0; z < i; z++) { }"),
    ("iteration", "foreach (int z : a) { }", "for (int z = 0; z < 3; z++) { }"),
    ("nested statement", "if (b) if (b) i = s;", "if (b) if (b) i = 1;"),
    ("nested statement", "if (b) { } else i = s;", "if (b) { } else i = 1;"),
    ("nested statement", "while (false) { { i = nope; } }", "while (false) { { i = 1; } }"),
    ("third statement of a row", "i = 1; i = 2; i = s;", "i = 1; i = 2; i = 3;"),
    ("first statement of a row", "i = s; i = 2; i = 3;", "i = 1; i = 2; i = 3;"),
]

# statements that are only wrong outside of a loop / of a certain function
RETURNS = {
    "function": [("returned type", "return \"x\";", "return 2;"), ("missing value", "return;", "return 3;"), ("returned type", "return a;", "return a.m;")],
    "method": [("returned type", "return \"x\";", "return 2;"), ("missing value", "return;", "return 3;")],
    "void-function": [("returned value", "return 1;", "return;"), ("returned value", "return s;", "return;")],
    "string-function": [("returned type", "return a;", "return s;"), ("returned type", "return 1;", "return \"1\";"), ("missing value", "return;", "return \"\";")],
    "bool-function": [("returned type", "return a;", "return b;"), ("returned type", "return 1;", "return i == 1;"), ("missing value", "return;", "return true;")],
    "constructor": [("returned value", "return 1;", "return;")],
    "namespace-function": [("returned type", "return \"x\";", "return 2;")],
    "operator": [("returned type", "return 1;", "return this;"), ("missing value", "return;", "return this;")],
    "main": [("returned type", "return \"x\";", "return 0;")],
}

# exceptions that leave a function that does not announce any
THROWS = [
    ("undeclared exception", "throw \"x\";", "try { throw \"x\"; } catch (string z) { i = 1; }"),
    ("undeclared exception", "throw new B();", "try { throw new B(); } catch (B z) { i = 1; }"),
    ("undeclared exception", "if (i < 0) { throw d; }", "try { if (i < 0) { throw d; } } catch (double z) { i = 1; }"),
    ("undeclared exception", "while (false) { throw s; }", "try { throw s; } catch { i = 1; }"),
    ("handler for another type", "try { throw \"x\"; } catch (double z) { i = 1; }", "try { throw \"x\"; } catch (string z) { i = 1; }"),
    ("handler for another class", "try { throw new B(); } catch (A z) { i = 1; }", "try { throw new B(); } catch (B z) { i = 1; }"),
    ("exception in a handler", "try { throw 1; } catch (int z) { throw \"x\"; }", "try { throw 1; } catch (int z) { i = z; }"),
    ("exception in an earlier handler", "try { throw 1; } catch (int z) { throw \"x\"; } catch (string z) { i = 1; }",
     "try { throw 1; } catch (int z) { i = z; } catch (string z) { i = 1; }"),
    ("exception in a handler before one for everything", "try { throw 1; } catch (int z) { throw \"x\"; } catch { i = 1; }", "try { throw 1; } catch (int z) { i = z; } catch { i = 1; }"),
    ("exception in a final block", "try { i = 1; } finally { throw \"x\"; }", "try { i = 1; } finally { i = 2; }"),
    ("exception in a final block", "try { throw 1; } catch (int z) { i = z; } finally { throw s; }", "try { throw 1; } catch (int z) { i = z; } finally { i = 2; }"),
    ("one of two exceptions", "try { if (b) { throw 1; } throw \"x\"; } catch (int z) { i = z; }",
     "try { if (b) { throw 1; } throw \"x\"; } catch (int z) { i = z; } catch (string z) { i = 1; }"),
    ("inner handler", "try { try { throw \"x\"; } catch (int z) { i = z; } } catch (double z) { i = 1; }", "try { try { throw \"x\"; } catch (int z) { i = z; } } catch (string z) { i = 1; }"),
]

# faulty declarations; everything else in the program is right
DECLARED = [
    ("member type", "public object X { public Nope m; }", "public object X { public B m; }"),
    ("result type", "public Nope x() { return null; }", "public B x() { return new B(); }"),
    ("method result type", "public object X { public Nope x() { return null; } }", "public object X { public B x() { return new B(); } }"),
    ("base class", "public object X extends Nope { }", "public object X extends B { }"),
    ("interface", "public object X implements Nope { }", "public object X { }"),
    ("member initialiser", "public object X { public int m = \"x\"; }", "public object X { public int m = 1; }"),
    ("global initialiser", "public int x1 = \"x\";", "public int x1 = 1;"),
    ("default value", "public int x(int a = \"x\") { return a; }", "public int x(int a = 2) { return a; }"),
    ("same member twice", "public object X { public int m; public string m; }", "public object X { public int m; public string n; }"),
    ("same method twice", "public object X { public int x() const { return 1; } public int x() const { return 2; } }",
     "public object X { public int x() const { return 1; } public int x(int a) const { return 2; } }"),
    ("same class twice", "public object X { } public object X { }", "public object X { } public object Y { }"),
    ("same parameter twice", "public int x(int a, int a) { return a; }", "public int x(int a, int b) { return a; }"),
    ("same enumeration value twice", "public enum X { q, q; }", "public enum X { q, r; }"),
    ("inheritance from itself", "public object X extends X { }", "public object X extends A { }"),
    ("circular inheritance", "public object X extends Y { } public object Y extends X { }", "public object X extends Y { } public object Y extends B { }"),
    ("body of a method", "public object X { public int m; public int x() const { return m + \"x\"; } }", "public object X { public int m; public int x() const { return m + 1; } }"),
    ("body of an operator", "public object X { public int operator+(int a) const { return nope; } }", "public object X { public int operator+(int a) const { return a; } }"),
    ("missing result", "public int x() { }", "public int x() { return 1; }"),
    ("missing result", "public int x(int a) { a = a + 1; }", "public int x(int a) { a = a + 1; return a; }"),
    ("missing result in one branch", "public int x(int a) { if (a == 1) { return 1; } else { a = 2; } }", "public int x(int a) { if (a == 1) { return 1; } else { return 2; } }"),
    ("missing result in a method", "public object X { public string x() const { print(\"x\"); } }", "public object X { public string x() const { print(\"x\"); return \"x\"; } }"),
    ("this in a function", "public int x() { return this.m; }", "public object X { public int m; public int x() const { return this.m; } }"),
    ("member of a used generic class", "public object X<T> { public T m; public int x() const { return nope; } } public int y() { X<int> z = new X<int>(); return z.x(); }",
     "public object X<T> { public T m; public int x() const { return 1; } } public int y() { X<int> z = new X<int>(); return z.x(); }"),
    ("argument of a generic class", "public object X<T> { public void put(T x) modify { } } public void y() { X<int> z = new X<int>(); z.put(\"x\"); }",
     "public object X<T> { public void put(T x) modify { } } public void y() { X<int> z = new X<int>(); z.put(1); }"),
    ("result of a generic class", "public object X<T> { public T v; public T get() const { return v; } } public string y() { X<B> z = new X<B>(); return z.get(); }",
     "public object X<T> { public T v; public T get() const { return v; } } public B y() { X<B> z = new X<B>(); return z.get(); }"),
    ("other type argument", "public object X<T> { public T v; } public void y() { X<int> z = new X<string>(); }", "public object X<T> { public T v; } public void y() { X<int> z = new X<int>(); }"),
]

# accepted although they should not be
KNOWN = [
    ("unknown-type", "global type", "public Nope x1;", "public B x1;"),
    ("unknown-type", "parameter type", "public object X { public int x(Nope a) const { return 1; } }", "public object X { public int x(B a) const { return 1; } }"),
    ("missing-result", "missing result after a branch", "public int x(int a) { if (a == 1) { return 1; } }", "public int x(int a) { if (a == 1) { return 1; } return 2; }"),
    ("missing-result", "missing result after a loop", "public int x(int a) { while (a < 1) { return 1; } }", "public int x(int a) { while (a < 1) { return 1; } return 2; }"),
    ("assignment-to-class", "assignment to a class", "public void x(A a) { A = a; }", "public void x(A a) { a = a; }"),
]


def declared(t, known):
    key = None
    if known:
        key, what, bad, good = t.choice(KNOWN)
    else:
        what, bad, good = t.choice(DECLARED)
    place = t.below(3)
    # classes of a namespace are not found by a short name that is declared later (see the findings of C15)
    space = t.bool(1, 4) and what != "circular inheritance"
    decls = list(DECLARATIONS)
    main = ["public int Main(int argc, string args) modify throws {", "\tprint(\"%s\");" % sites.START, "\tA a = new A(3); int i = a.get() + fi(1);", "\tprint(\"%s\");" % sites.END,
            "\treturn 0;", "}"]
    texts = []
    for x in (bad, good):
        x = ["public namespace Around {", x, "}"] if space else [x]
        texts.append("\n".join([x + decls + main, decls + x + main, decls + main + x][place]) + "\n")
    return {"what": "declaration: " + what, "labels": {"host": "declaration", "frame": ["first", "middle", "last"][place] + ("-namespace" if space else "")},
            "place": [bad, good], "known": key, "bad": texts[0], "good": texts[1]}


def gen(t):
    kind = t.weighted([(200, "expression"), (120, "statement"), (40, "return"), (20, "jump"), (40, "throws"), (40, "declared"), (2, "known")])
    if kind in ("declared", "known"):
        return declared(t, kind == "known")
    hosts, frames = None, None
    if kind == "expression":
        typ = t.weighted([(6, "int"), (4, "bool"), (3, "string"), (2, "A"), (1, "E")])
        what, bad, good = t.choice(EXPRESSIONS[typ])
        ctx = t.choice(CONTEXTS[typ])
        bad, good = ctx.replace("{}", bad), ctx.replace("{}", good)
    elif kind == "statement":
        what, bad, good = t.choice(STATEMENTS)
    elif kind == "jump":
        word = t.choice(["break", "continue"])
        what, bad, good = word + " outside of a loop", word + ";", "while (i < 0) { %s; }" % word
        frames = ["block", "if", "if-false", "else", "else-if", "try", "catch", "finally", "nested-blocks"]
    elif kind == "throws":
        what, bad, good = t.choice(THROWS)
        hosts = [x for x in sites.HOSTS if x != "main"]
    else:
        host = t.choice(sorted(RETURNS))
        what, bad, good = t.choice(RETURNS[host])
        hosts = [host]
        frames = ["if-false", "while-never", "for-never", "after-return", "catch-never"]
    site = sites.build(t, DECLARATIONS, LOCALS + ["int z0 = 0;"], hosts, frames, throws=kind != "throws")
    if kind == "return" and site.labels["depth"] == 0:
        site.pre.append(site.indent + "if (q0 < 0) {")
        site.post.insert(0, site.indent + "}")
    return {"what": "%s: %s" % (kind, what), "labels": dict(site.labels), "place": [bad, good], "known": None,
            "bad": sites.text(site.pre, site.indent, [bad], site.post), "good": sites.text(site.pre, site.indent, [good], site.post)}


def run(case, env):
    r = sites.run(case, env)
    if r.failure and case.get("known") and "has been started" in r.failure["what"]:
        return Result(r.failure, r.nontrivial, r.key, r.labels, known=case["known"])
    return r
