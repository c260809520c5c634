"""Constants and const contexts: programs with one modification of something constant are refused, the permitted twin runs."""

import sites
from sites import render  # noqa: F401
from vlib import Result

PROPERTY = "C16"
LEVEL = "exploration"
CASES = {"quick": 15000, "thorough": 40000}
RULE = "one case = one program around one place, run once with a forbidden modification and once with a permitted statement in that place"

DECLARATIONS = """
public int g = 1;
public int gc const = 7;
public string gs const = "k";
public object D {
	public int v;
	public string w;
	public void put(int x) modify { v = x; }
	public int val() const { return v; }
}
public object A {
	public int m;
	public string t;
	public D d;
	public int mc const;
	public static int st;
	public void Constructor(int x = 1) { m = x; mc = x; t = ""; d = new D(); }
	public void set(int x) modify { m = x; }
	public void add(int x, int y = 2) modify { m = x + y; }
	public int get() const { return m; }
	public D inner() const { return d; }
	public A Copy() const { return new A(m); }
	public static void sset(int x) modify { st = x; }
}
public object S extends A {
	public int own;
	public void Constructor(int x = 1) { base.Constructor(x); own = x; }
	public void put(int x) modify { own = x; }
}
public int look(A x const) { return x.get(); }
public object H { public void Constructor(A x ref, int y = 2) { x.set(y); } }
public namespace N { public void alter(A x ref, int y = 1) { x.set(y); } }
public object Taker {
	public void take(A x ref, int y) modify { x.set(y); }
	public void take(int y, A x ref) modify { x.set(y); }
	public static int stake(A x ref) modify { return x.m; }
	public Taker operator+(A x ref) const { x.set(1); return new Taker(); }
}
public void alter(A x ref, int y) { x.set(y); }
public void alter(int y, A x ref) { x.set(y); }
public void alter(int x ref) { x++; }
public void alter(D x ref) { x.put(4); }
public void alter(A w const, A x ref, D y ref, int z = 3) { x.set(z); y.put(w.get()); }
""".strip().split("\n")

LOCALS = ["int i = 1; A a = new A(4); D o = new D(); S u = new S(2);",
          "int k const = 4; string ks const = \"x\"; double kd const = 1.5d; bool kb const = true;",
          "A ca const = new A(2); D cd const = new D(); S cu const = new S(3);"]

# (what, forbidden, permitted) everywhere
ANYWHERE = [
    ("assignment to a constant", "k = 5;", "i = 5;"),
    ("assignment to a constant", "k = k;", "i = k;"),
    ("assignment to a constant", "ks = \"y\";", "string z = ks;"),
    ("assignment to a constant", "kd = 2.5d;", "double z = kd;"),
    ("assignment to a constant", "kb = false;", "bool z = kb;"),
    ("assignment to a global constant", "gc = 3;", "i = gc;"),
    ("assignment to a global constant", "gs = \"z\";", "string z = gs + \"z\";"),
    ("compound assignment to a constant", "k += 2;", "i += k;"),
    ("compound assignment to a constant", "k -= 2;", "i -= k;"),
    ("compound assignment to a constant", "k *= 2;", "i *= k;"),
    ("compound assignment to a constant", "ks += \"y\";", "string z = ks; z += \"y\";"),
    ("compound assignment to a global constant", "gc += 1;", "i += gc;"),
    ("increment of a constant", "k++;", "i++;"),
    ("decrement of a constant", "k--;", "i--;"),
    ("increment of a global constant", "gc++;", "i = gc; i++;"),
    ("increment in an expression", "i = k++;", "i = k + 1;"),
    ("decrement in an expression", "i = 1 + k--;", "i = 1 + k - 1;"),
    ("increment in an argument", "print(cast<string>(k++));", "print(cast<string>(k));"),
    ("increment in a condition", "if (k++ > 1) { i = 2; }", "if (k > 1) { i = 2; }"),
    ("constant loop variable", "for (int z const = 0; z < 2; z++) { }", "for (int z = 0; z < 2; z++) { }"),
    ("constant exception", "try { throw 1; } catch (int z const) { z = 2; }", "try { throw 1; } catch (int z) { z = 2; }"),
    ("constant in a block", "{ int z const = 2; z = 3; }", "{ int z const = 2; i = z; }"),
    ("constant without value", "int z const; z = 2;", "int z; z = 2;"),
    ("constant declared with var", "var z const = 2; z = 3;", "var z = 2; z = 3;"),
    ("member of a constant object", "ca.m = 3;", "a.m = 3;"),
    ("member of a constant object", "ca.t = \"y\";", "a.t = ca.t;"),
    ("member of a constant object", "ca.m++;", "a.m++;"),
    ("member of a constant object", "ca.m--;", "i = ca.m; i--;"),
    ("member of a constant object", "ca.m += 1;", "a.m += ca.m;"),
    ("member of a constant object", "cd.v = 1;", "o.v = 1;"),
    ("inherited member of a constant object", "cu.m = 1;", "u.m = 1;"),
    ("own member of a constant object", "cu.own = 1;", "u.own = 1;"),
    ("member of a member of a constant object", "ca.d.v = 3;", "a.d.v = 3;"),
    ("member of a member of a constant object", "ca.d.w = \"z\";", "a.d.w = ca.d.w;"),
    ("modifying method of a constant object", "ca.set(3);", "a.set(3);"),
    ("modifying method of a constant object", "ca.add(3);", "a.add(3);"),
    ("modifying method of a constant object", "cd.put(3);", "i = cd.val();"),
    ("inherited modifying method of a constant object", "cu.set(3);", "u.set(3);"),
    ("own modifying method of a constant object", "cu.put(3);", "u.put(3);"),
    ("modifying method of a member of a constant object", "ca.d.put(3);", "a.d.put(3);"),
    ("rebinding a constant object", "ca = a;", "a = a;"),
    ("rebinding a constant object", "ca = new A();", "a = new A();"),
    ("constant alias", "A z const = a; z.m = 1;", "A z = a; z.m = 1;"),
    ("constant alias", "A z const = a; z.set(1);", "A z const = a; i = z.get();"),
    ("constant for a reference parameter", "alter(ca, 1);", "alter(a, 1);"),
    ("constant for a reference parameter", "alter(1, ca);", "alter(1, a);"),
    ("constant for a reference parameter", "alter(ca, ca, o);", "alter(ca, a, o);"),
    ("constant for a reference parameter", "alter(a, ca, o, 2);", "alter(a, a, o, 2);"),
    ("constant for a reference parameter", "alter(a, a, cd);", "alter(a, a, o);"),
    ("constant for a reference parameter", "alter(cd);", "alter(o);"),
    ("constant for a reference parameter", "alter(k);", "alter(i);"),
    ("constant for a reference parameter", "alter(gc);", "alter(5);"),
    ("constant for a reference parameter", "N.alter(ca);", "N.alter(a);"),
    ("constant for a reference parameter", "N.alter(ca, 7);", "N.alter(new A(), 7);"),
    ("member of a constant for a reference parameter", "alter(ca.m);", "alter(a.m);"),
    ("member of a constant for a reference parameter", "alter(ca.d);", "alter(a.d);"),
    ("member of a constant for a reference parameter", "alter(ca, a, ca.d);", "alter(ca, a, a.d);"),
    ("constant for a reference parameter of a method", "Taker z = new Taker(); z.take(ca, 2);", "Taker z = new Taker(); z.take(a, 2);"),
    ("constant for a reference parameter of a method", "Taker z = new Taker(); z.take(2, ca);", "Taker z = new Taker(); z.take(2, a);"),
    ("constant for a reference parameter of a static method", "i = Taker.stake(ca);", "i = Taker.stake(a);"),
    ("constant for a reference parameter of a constructor", "H z = new H(ca);", "H z = new H(a);"),
    ("constant for a reference parameter of a constructor", "H z = new H(ca, 1);", "H z = new H(new A(), 1);"),
    ("constant for a reference parameter of an operator", "Taker z = new Taker(); Taker y = z + ca;", "Taker z = new Taker(); Taker y = z + a;"),
    ("deleting a constant object", "delete ca;", "delete a;"),
    ("deleting a constant object", "A z const = a; delete z;", "A z = a; delete z;"),
    ("deleting a constant object", "try { throw new A(); } catch (A z const) { delete z; }", "try { throw new A(); } catch (A z) { delete z; }"),
    ("deleting a member of a constant object", "delete ca.d;", "delete a.d;"),
    ("deleting an inherited member of a constant object", "delete cu.d;", "delete u.d;"),
    ("constant copy", "A z const = copy a; z.set(1);", "A z = copy a; z.set(1);"),
]

PERMITTED = ["i = ca.get();", "i = ca.m + ca.d.v;", "i = look(ca);", "i = ca.d.val();", "i = cu.get() + cu.m;", "A z = new A(k); z.set(gc);", "i = k + gc;",
             "string z = ks + gs;", "o.put(k);", "bool z = kb && (kd > 1.0d);"]

# inside methods that are not allowed to modify their object; here `n`, `r`, `q` are members of the class
MEMBERS = ["public int n;", "public string r;", "public D q;", "public static int stat;",
           "public void change(int x) modify { n = x; }", "public int watch() const { return n; }",
           "public static void schange(int x) modify { stat = x; }"]
IN_CONST = [
    ("member in a const method", "n = 3;", "i = n;"),
    ("member in a const method", "n++;", "i = n; i++;"),
    ("member in a const method", "n--;", "i = n - 1;"),
    ("member in a const method", "n += 2;", "i += n;"),
    ("member in a const method", "i = n++;", "i = n + 1;"),
    ("member in a const method", "r = \"x\";", "string z = r;"),
    ("member in a const method", "r += \"x\";", "string z = r + \"x\";"),
    ("member by this in a const method", "this.n = 3;", "i = this.n;"),
    ("member by this in a const method", "this.n++;", "i = this.n + 1;"),
    ("member by this in a const method", "this.n += 2;", "i += this.n;"),
    ("member by this in a const method", "this.r = \"x\";", "string z = this.r;"),
    ("member of a member in a const method", "q.v = 3;", "D z = q;"),
    ("member of a member in a const method", "this.q.v = 3;", "D z = this.q;"),
    ("object member in a const method", "q = new D();", "D z = new D();"),
    ("object member in a const method", "this.q = new D();", "D z = new D(); z = new D();"),
    ("modifying method of a member in a const method", "q.put(3);", "o.put(3);"),
    ("modifying method of a member in a const method", "this.q.put(3);", "o.put(3);"),
    ("deleting a member in a const method", "delete q;", "delete o;"),
    ("deleting a member in a const method", "delete this.q;", "D z = this.q; delete z;"),
    ("own modifying method in a const method", "change(3);", "i = watch();"),
    ("own modifying method in a const method", "this.change(3);", "i = this.watch();"),
    ("member for a reference parameter in a const method", "alter(n);", "alter(i);"),
    ("member for a reference parameter in a const method", "alter(q);", "alter(o);"),
    ("member for a reference parameter in a const method", "alter(a, a, q);", "alter(a, a, o);"),
    ("member for a reference parameter in a const method", "alter(this.q);", "alter(o);"),
    ("static member in a const method", "stat = 3;", "i = stat;"),
    ("static method in a const method", "schange(3);", "i = stat + 1;"),
]

# a declared constant parameter
PARAMETERS = [
    ("constant parameter", "p0 = 3;", "i = p0;"),
    ("constant parameter", "p0++;", "i = p0 + 1;"),
    ("constant parameter", "p0 += 1;", "i += p0;"),
    ("constant object parameter", "p1.m = 3;", "i = p1.m;"),
    ("constant object parameter", "p1.set(3);", "i = p1.get();"),
    ("constant object parameter", "p1.d.v = 3;", "i = p1.d.v;"),
    ("constant object parameter", "p1.d.put(3);", "i = p1.d.val();"),
    ("constant object parameter", "p1 = new A();", "A z = new A();"),
    ("deleting a constant object parameter", "delete p1;", "A z = p1; delete z;"),
    ("deleting a member of a constant object parameter", "delete p1.d;", "delete a.d;"),
    ("constant object parameter", "p1.m++;", "i = p1.m + 1;"),
]

# known not to be refused
KNOWN = [
    ("constant member from outside", "a.mc = 3;", "i = a.mc;"),
    ("constant member from outside", "a.mc++;", "i = a.mc + 1;"),
]


def gen(t):
    kind = t.weighted([(60, "anywhere"), (35, "const-method"), (25, "parameter"), (5, "permitted"), (1, "known")])
    hosts, members, known = None, (), None
    swap = None
    if kind == "anywhere":
        what, bad, good = t.choice(ANYWHERE)
    elif kind == "permitted":
        what, bad, good = "permitted", None, t.choice(PERMITTED)
    elif kind == "known":
        what, bad, good = t.choice(KNOWN)
        known = "const-member"
    elif kind == "const-method":
        what, bad, good = t.choice(IN_CONST)
        hosts, members = ["const-method"], MEMBERS
        swap = t.choice([" const throws {", " throws {"])
    else:
        what, bad, good = t.choice(PARAMETERS)
        hosts = ["parameter-function"]
    locals_ = LOCALS
    site = sites.build(t, DECLARATIONS, locals_, hosts, members=members)
    pre, post = site.pre, site.post
    if swap:
        pre = [x.replace(" const throws {", swap) if x.strip().startswith("public int run()") else x for x in pre]
    if kind == "parameter":
        mode = t.choice(["", " ref"])
        pre = [x.replace("(int p0, string p1 = \"d\")", "(int p0 const%s, A p1 const)" % mode) for x in pre]
        post = [x.replace("Host(3);", "Host(3, new A());" if not mode else "int pp = 3; Host(pp, new A());") for x in post]
    case = {"what": what, "labels": dict(site.labels), "place": [bad, good], "known": known,
            "bad": sites.text(pre, site.indent, [bad], post) if bad else None, "good": sites.text(pre, site.indent, [good], post)}
    return case


def run(case, env):
    r = sites.run(case, env)
    if r.failure and case["known"] and "has been started" in r.failure["what"]:
        return Result(r.failure, r.nontrivial, r.key, r.labels, known=case["known"])
    return r
