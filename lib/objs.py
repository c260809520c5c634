"""Programs over object references (variables, fields, parameters, results, thrown objects) and their reference model.

Node expressions never yield null (fields, which may be null, are read through orelse()). The model counts references.
"""
import vlib
from prog import Break, Continue, Exit, Fuel, Return, Thrown, strip_trace

HEAD = '''public int SERIAL;
%(bases)spublic object Node%(extends)s {
	public void Constructor(string tag, int value) modify {
		mTag = tag; Value = value;
		SERIAL++;
		mSerial = SERIAL;%(born)s
	}%(dtor)s
	public string Tag() const { return mTag; }
	public int Serial() const { return mSerial; }
	public void Set(int v) modify { Value = v; }
	public int Get() const { return Value; }
	public Node Self() const { return this; }
	public Node Copy() const {
		Node n = new Node(mTag + "c", Value);
		n.Next = Next; n.Other = Other;
		return n;
	}
	public void LinkNext(Node n) modify { Next = n; }
	public void Replace(Node n) modify { G = n; print("rep " + mTag); }
%(own)s	private string mTag;
	private int mSerial;
}
public Node G;
public Node fresh(string tag, int v) { Node n = new Node(tag, v); return n; }
public Node orelse(Node n, Node d) { if ( n == null ) { return d; } return n; }
public Node pick(Node a, Node b, bool first) { Node t = new Node("t", 0); if ( first ) { return a; } return b; }
public Node chain(string tag, Node next) { Node n = new Node(tag, 1); n.Next = next; return n; }
public Node build(int k) { if ( k < 2 ) { return new Node("leaf", 0); } return chain("b" + k, build(k - 1)); }
public void drop(Node n) { n = new Node("d", 0); print("in " + n.Tag()); }
public void setval(Node n, int v) { n.Value = v; }
public Node raise(Node n) throws { Node l = new Node("l", 0); throw n; return n; }
public string tag(Node n) { if ( n == null ) { return "-"; } return n.Tag() + "=" + n.Value; }
'''


DTORS = {
    True: '\n\tpublic void Destructor() { print("~" + mTag + mSerial); }',
    # a destructor that refers to the object being destroyed
    "self": '\n\tpublic void Destructor() { Node me = this; print("~" + me.Tag() + me.Serial()); me = Self(); }',
}


FIELDS = {"Value": "\tpublic int Value;\n", "Next": "\tpublic Node Next;\n", "Other": "\tpublic Node Other;\n"}


def head(dtors, inherited=()):
    """inherited: per base class, nearest first, the names of the fields declared there"""
    names = ["B%d" % i for i in range(len(inherited))]
    bases = "".join("public object %s%s {\n%s}\n" % (n, " extends " + names[i + 1] if i + 1 < len(names) else "",
                                                    "".join(FIELDS[f] for f in inherited[i]))
                    for i, n in reversed(list(enumerate(names))))
    layout = {"bases": bases, "extends": " extends " + names[0] if names else "",
              "own": "".join(FIELDS[f] for f in ("Value", "Next", "Other") if not any(f in b for b in inherited))}
    return HEAD % dict(layout, born='\n\t\tprint("+" + mTag + mSerial);' if dtors else "", dtor=DTORS[dtors] if dtors else "")


def inherited(t):
    """Which fields the class of the nodes inherits, and over how many levels."""
    if t.bool(1, 2):
        return []
    bases = [[] for _ in range(t.int(1, 3))]
    for f in ("Value", "Next", "Other"):
        k = t.below(len(bases) + 1)
        if k:
            bases[k - 1].append(f)
    return bases


class N:
    __slots__ = ("tag", "value", "serial", "f", "refs")


class World:
    def __init__(self, funcs, dtors):
        self.funcs = funcs
        self.dtors = dtors
        self.out = []
        self.serial = 0
        self.fuel = 1200
        self.depth = 0
        self.dead = False
        self.glob = None
        self.ev = {}
        self.scopes = None

    def note(self, k):
        self.ev[k] = self.ev.get(k, 0) + 1

    def spent(self):
        self.dead = True
        raise Fuel()

    def step(self):
        self.fuel -= 1
        if self.fuel < 0:
            self.spent()

    def print(self, s):
        if len(s) > 300 or len(self.out) > 600:
            self.spent()
        self.out.append(s)

    # every function returning a node returns it with one reference owned by the receiver
    def new(self, tag, v):
        self.step()
        if len(tag) > 12:
            self.spent()
        n = N()
        self.serial += 1
        n.tag, n.value, n.serial, n.f, n.refs = tag, v, self.serial, {"Next": None, "Other": None}, 1
        if self.dtors:
            self.print("+%s%d" % (tag, n.serial))
        return n

    def hold(self, n):
        if n is not None:
            n.refs += 1
        return n

    def free(self, n):
        if n is None:
            return
        n.refs -= 1
        if n.refs == 0:
            self.note("destroyed")
            if self.dtors:
                self.print("~%s%d" % (n.tag, n.serial))
            for c in n.f.values():
                self.free(c)
            n.f = {"Next": None, "Other": None}

    def setf(self, n, f, v):
        """Takes over v's reference."""
        old = n.f[f]
        n.f[f] = v
        self.free(old)

    # scopes
    def var(self, name):
        if name == "G":
            return self.glob
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        raise KeyError(name)

    def setvar(self, name, v):
        if name == "G":
            old, self.glob = self.glob, v
        else:
            for s in reversed(self.scopes):
                if name in s:
                    old, s[name] = s[name], v
                    break
        self.free(old)

    def pop(self):
        for n in self.scopes.pop().values():
            self.free(n)

    def call(self, name, args):
        """args: owned nodes; they are released when the call returns."""
        self.step()
        self.depth += 1
        if self.depth > 40:
            self.spent()
        params, body = self.funcs[name]
        saved, self.scopes = self.scopes, [dict(zip(params, [self.hold(a) for a in args]))]
        res = None
        try:
            for s in body:
                s.run(self)
        except Return as r:
            res = r.v
        finally:
            while self.scopes:
                self.pop()
            self.scopes = saved
            self.depth -= 1
            for a in args:
                self.free(a)
        return res


# ---- expressions: src() and ev(w) -> owned node ----

class E:
    pass


class Var(E):
    def __init__(self, n):
        self.n = n

    def src(self):
        return self.n

    def ev(self, w):
        return w.hold(w.var(self.n))


class Null(E):
    def src(self):
        return "null"

    def ev(self, w):
        return None


class New(E):
    def __init__(self, tag, v):
        self.tag, self.v = tag, v

    def src(self):
        return 'new Node("%s", %d)' % (self.tag, self.v)

    def ev(self, w):
        return w.new(self.tag, self.v)


def evaluate(w, exprs):
    """Values of the expressions; objects already obtained are let go if a later expression throws."""
    r = []
    try:
        for x in exprs:
            r.append(x.ev(w) if isinstance(x, (E, Field)) else x)
    except Exception:
        for n in r:
            if isinstance(n, N):
                w.free(n)
        raise
    return r


class Fn(E):
    """Calls of the helper functions. args: expressions, strings, ints or bools"""

    def __init__(self, name, args):
        self.name, self.args = name, args

    def src(self):
        return "%s(%s)" % (self.name, ", ".join(a.src() if isinstance(a, (E, Field)) else '"%s"' % a if isinstance(a, str)
                                               else ("true" if a else "false") if isinstance(a, bool) else str(a) for a in self.args))

    def ev(self, w):
        a = evaluate(w, self.args)
        owned = [x for x in a if isinstance(x, N)]
        w.note(self.name)
        try:
            return getattr(self, "do_" + self.name)(w, *a)
        finally:
            for x in owned:
                w.free(x)

    def do_fresh(self, w, tag, v):
        return w.new(tag, v)

    def do_orelse(self, w, n, d):
        return w.hold(d if n is None else n)

    def do_pick(self, w, a, b, first):
        t = w.new("t", 0)
        r = w.hold(a if first else b)
        w.free(t)
        return r

    def do_chain(self, w, tag, nxt):
        n = w.new(tag, 1)
        w.setf(n, "Next", w.hold(nxt))
        return n

    def do_build(self, w, k):
        if k < 2:
            return w.new("leaf", 0)
        sub = self.do_build(w, k - 1)
        try:
            return self.do_chain(w, "b%d" % k, sub)
        finally:
            w.free(sub)

    def do_raise(self, w, n):
        l = w.new("l", 0)
        w.free(l)
        w.note("throw")
        raise Thrown(w.hold(n), "Node")

    def do_drop(self, w, n):
        d = w.new("d", 0)
        w.print("in d")
        w.free(d)

    def do_setval(self, w, n, v):
        n.value = v


class Field:
    """A field of a variable; may be null."""

    def __init__(self, v, f):
        self.v, self.f = v, f

    def src(self):
        return "%s.%s" % (self.v, self.f)

    def ev(self, w):
        return w.hold(w.var(self.v).f[self.f])


class Method(E):
    """e.Self() or copy e"""

    def __init__(self, e, m):
        self.e, self.m = e, m

    def src(self):
        if self.m == "copy":
            return "copy " + self.e.src()
        return "%s.%s()" % (self.e.src(), self.m)

    def ev(self, w):
        n = self.e.ev(w)
        w.note(self.m)
        if self.m == "Self":
            return n
        c = w.new(n.tag + "c", n.value)
        for f in ("Next", "Other"):
            w.setf(c, f, w.hold(n.f[f]))
        w.free(n)
        return c


class User(E):
    def __init__(self, name, args):
        self.name, self.args = name, args

    def src(self):
        return "%s(%s)" % (self.name, ", ".join(a.src() for a in self.args))

    def ev(self, w):
        args = evaluate(w, self.args)
        w.note("user call")
        return w.call(self.name, args)


# ---- statements ----

class S:
    ends = False

    def run(self, w):
        w.step()
        self.do(w)


class Decl(S):
    def __init__(self, n, e):
        self.n, self.e = n, e

    def lines(self, i):
        return ["\t" * i + "Node %s = %s;" % (self.n, self.e.src())]

    def do(self, w):
        v = self.e.ev(w)
        w.scopes[-1][self.n] = v


class Empty(S):
    """declares a variable without an object"""

    def __init__(self, n):
        self.n = n

    def lines(self, i):
        return ["\t" * i + "Node %s;" % self.n]

    def do(self, w):
        w.scopes[-1][self.n] = None


class Set(S):
    def __init__(self, n, e):
        self.n, self.e = n, e

    def lines(self, i):
        return ["\t" * i + "%s = %s;" % (self.n, self.e.src())]

    def do(self, w):
        w.note("reassigned")
        w.setvar(self.n, self.e.ev(w))


class Delete(S):
    """gives up the object of a variable"""

    def __init__(self, n):
        self.n = n

    def lines(self, i):
        return ["\t" * i + "delete %s;" % self.n]

    def do(self, w):
        w.note("deleted")
        w.setvar(self.n, None)


class DeleteField(S):
    def __init__(self, v, f):
        self.v, self.f = v, f

    def lines(self, i):
        return ["\t" * i + "delete %s.%s;" % (self.v, self.f)]

    def do(self, w):
        w.note("deleted")
        w.setf(w.var(self.v), self.f, None)


class SetField(S):
    """v.f = x for a variable or field x, only from newer to older objects when acyclic is set."""

    def __init__(self, v, f, x, acyclic, how):
        self.v, self.f, self.x, self.acyclic, self.how = v, f, x, acyclic, how

    def lines(self, i):
        s = "%s.%s = %s;" % (self.v, self.f, self.x.src()) if self.how == 0 or self.f != "Next" else "%s.LinkNext(%s);" % (self.v, self.x.src())
        if self.acyclic and isinstance(self.x, Var):
            return ["\t" * i + "if ( %s.Serial() < %s.Serial() ) { %s }" % (self.x.n, self.v, s)]
        return ["\t" * i + s]

    def do(self, w):
        n = w.var(self.v)
        if self.acyclic and isinstance(self.x, Var) and not w.var(self.x.n).serial < n.serial:
            return
        x = self.x.ev(w)
        w.note("linked" if x is not None else "unlinked")
        w.setf(w.var(self.v), self.f, x)


class SetDeep(S):
    """if ( v.f != null ) { v.f.g = v.f.h; }  or value updates through two steps"""

    def __init__(self, v, f, g, h):
        self.v, self.f, self.g, self.h = v, f, g, h

    def lines(self, i):
        p = "%s.%s" % (self.v, self.f)
        if isinstance(self.h, int):
            return ["\t" * i + "if ( %s != null ) { %s.Value %s %d; }" % (p, p, self.g, self.h)]
        return ["\t" * i + "if ( %s != null ) { %s.%s = %s.%s; }" % (p, p, self.g, p, self.h)]

    def do(self, w):
        n = w.var(self.v).f[self.f]
        if n is None:
            return
        w.note("deep update")
        if isinstance(self.h, int):
            n.value = self.h if self.g == "=" else n.value + self.h
        else:
            w.setf(n, self.g, w.hold(n.f[self.h]))


class SetValue(S):
    def __init__(self, v, form, k):
        self.v, self.form, self.k = v, form, k

    def lines(self, i):
        return ["\t" * i + {0: "%s.Value = %d;", 1: "%s.Value += %d;", 2: "%s.Set(%d);", 3: "setval(%s, %d);"}[self.form] % (self.v, self.k)]

    def do(self, w):
        n = w.var(self.v)
        w.note("value update")
        n.value = n.value + self.k if self.form == 1 else self.k


class Replace(S):
    """a method that reassigns the variable its own object was reached through"""

    def __init__(self, e):
        self.e = e

    def lines(self, i):
        return ["\t" * i + "G.Replace(%s);" % self.e.src()]

    def do(self, w):
        x = self.e.ev(w)
        n = w.hold(w.var("G"))
        w.setvar("G", w.hold(x))
        w.note("replaced while in use")
        w.print("rep " + n.tag)
        w.free(n)
        w.free(x)


class Show(S):
    def __init__(self, tag, e):
        self.tag, self.e = tag, e

    def lines(self, i):
        return ["\t" * i + 'print("%s " + tag(%s));' % (self.tag, self.e.src())]

    def do(self, w):
        n = self.e.ev(w)
        s = "-" if n is None else "%s=%d" % (n.tag, n.value)
        w.free(n)
        w.print("%s %s" % (self.tag, s))


class Same(S):
    def __init__(self, tag, a, b):
        self.tag, self.a, self.b = tag, a, b

    def lines(self, i):
        return ["\t" * i + 'print("%s " + (%s == %s));' % (self.tag, self.a.src(), self.b.src())]

    def do(self, w):
        a, b = evaluate(w, [self.a, self.b])
        w.note("identity " + ("same" if a is b else "different"))
        r = "%s %d" % (self.tag, a is b)
        w.free(a)
        w.free(b)
        w.print(r)


class Do(S):
    def __init__(self, e):
        self.e = e

    def lines(self, i):
        return ["\t" * i + self.e.src() + ";"]

    def do(self, w):
        w.free(self.e.ev(w))


class Mark(S):
    def __init__(self, k):
        self.k = k

    def lines(self, i):
        return ["\t" * i + 'print("#%d");' % self.k]

    def do(self, w):
        w.print("#%d" % self.k)


def block(body, i):
    r = []
    for s in body:
        r += s.lines(i)
    return r


class Block(S):
    def __init__(self, body):
        self.body = body

    def lines(self, i):
        return ["\t" * i + "{"] + block(self.body, i + 1) + ["\t" * i + "}"]

    def do(self, w):
        w.scopes.append({})
        d = len(w.scopes)
        try:
            for s in self.body:
                s.run(w)
        finally:
            del w.scopes[d:]
            w.pop()


class For(S):
    def __init__(self, v, k, body):
        self.v, self.k, self.body = v, k, body

    def lines(self, i):
        return ["\t" * i + "for ( int %s = 0; %s < %d; %s++ ) {" % (self.v, self.v, self.k, self.v)] + block(self.body.body, i + 1) + ["\t" * i + "}"]

    def do(self, w):
        for _ in range(self.k):
            w.step()
            try:
                self.body.do(w)
            except Break:
                w.note("break")
                break
            except Continue:
                w.note("continue")


class IfSame(S):
    def __init__(self, a, b, body, other):
        self.a, self.b, self.body, self.other = a, b, body, other

    def lines(self, i):
        r = ["\t" * i + "if ( %s == %s ) {" % (self.a.src(), self.b.src())] + block(self.body.body, i + 1) + ["\t" * i + "}"]
        if self.other:
            r += ["\t" * i + "else {"] + block(self.other.body, i + 1) + ["\t" * i + "}"]
        return r

    def do(self, w):
        a, b = evaluate(w, [self.a, self.b])
        w.free(a)
        w.free(b)
        if a is b:
            self.body.do(w)
        elif self.other:
            self.other.do(w)


class Jump(S):
    ends = True

    def __init__(self, kind, e=None):
        self.kind, self.e = kind, e

    def lines(self, i):
        return ["\t" * i + (self.kind + (" " + self.e.src() if self.e else "")) + ";"]

    def do(self, w):
        if self.kind == "break":
            raise Break()
        if self.kind == "continue":
            raise Continue()
        v = self.e.ev(w) if isinstance(self.e, E) else None
        if self.kind == "throw":
            w.note("throw")
            raise Thrown(v, "Node")
        w.note("return")
        raise Return(v, "Node")


class Quit(S):
    ends = True

    def __init__(self, rc):
        self.rc = rc

    def lines(self, i):
        return ["\t" * i + "exit(%d);" % self.rc]

    def do(self, w):
        w.note("exit")
        raise Exit(self.rc)


class Try(S):
    def __init__(self, body, name, handler, fin):
        self.body, self.name, self.handler, self.fin = body, name, handler, fin

    def lines(self, i):
        r = ["\t" * i + "try {"] + block(self.body.body, i + 1) + ["\t" * i + "}"]
        if self.handler:
            r += ["\t" * i + "catch ( Node %s ) {" % self.name] + block(self.handler.body, i + 1) + ["\t" * i + "}"]
        if self.fin:
            r += ["\t" * i + "finally {"] + block(self.fin.body, i + 1) + ["\t" * i + "}"]
        return r

    def do(self, w):
        pending = None
        handled = None
        try:
            self.body.do(w)
        except Thrown as e:
            handled = e.v
            if self.handler:
                w.note("caught")
                w.scopes.append({self.name: w.hold(e.v)})
                d = len(w.scopes)
                try:
                    self.handler.do(w)
                except (Thrown, Break, Continue, Return, Exit) as p:
                    pending = p
                finally:
                    del w.scopes[d:]
                    w.pop()
                if isinstance(pending, (Thrown, Exit)):     # the handled exception is given up
                    w.free(handled)
                    handled = None
            else:
                w.note("swallowed")
        except (Break, Continue, Return, Exit) as p:
            pending = p
        if self.fin:
            try:
                self.fin.do(w)
            except (Thrown, Break, Continue, Return, Exit):
                # what was pending is abandoned, together with the object it carries
                w.free(handled)
                w.free(getattr(pending, "v", None))
                raise
        # the thrown object is let go when the whole statement is done
        w.free(handled)
        if pending is not None:
            raise pending


def execute(funcs, main, dtors):
    w = World(funcs, dtors)
    try:
        return run_all(w, funcs, main)
    except Exception:
        if w.dead:          # out of fuel while unwinding
            raise Fuel()
        raise


def run_all(w, funcs, main):
    rc = 0
    w.funcs = dict(funcs)
    w.funcs["Main"] = ([], main)
    last = None
    try:
        w.call("Main", [])
    except Thrown as e:
        rc, last = 255, e.v
    except Exit as e:
        rc = e.rc
    w.free(last)
    g, w.glob = w.glob, None
    w.free(g)
    return w, rc


def windows(lines):
    """Per window between markers: the other lines in order and the destroyed objects as a multiset."""
    r = [([], [])]
    for x in lines:
        if x.startswith("~"):
            r[-1][1].append(x)
        else:
            r[-1][0].append(x)
            if x.startswith("#"):
                r.append(([], []))
    return ["%s | destroyed: %s" % (" ; ".join(a), " ".join(sorted(b))) for a, b in r]


def check(expected, rc, got):
    have = strip_trace(got.out.decode("utf-8", "surrogateescape"))
    g = vlib.Out(got.rc, "\n".join(windows(have)).encode("utf-8", "surrogateescape"), got.err, got.timeout)
    return vlib.compare_output("\n".join(windows(expected)), rc, g)


class Gen:
    def __init__(self, t, dtors, throws=True):
        self.t, self.dtors, self.throws = t, dtors, throws
        self.n = 0
        self.scopes = []
        self.funcs = {}
        self.loops = 0
        self.infunc = False
        self.budget = 40

    def id(self):
        self.n += 1
        return self.n

    def vars(self):
        return sorted({n for s in self.scopes for n in s}) + ["G"]

    def var(self):
        return self.t.choice(self.vars())

    def expr(self, depth=2):
        t = self.t
        k = t.weighted([(5, "var"), (4, "new"), (2, "fresh"), (2, "orelse"), (1, "pick"), (1, "chain"), (1, "self"), (1, "build"),
                        (1, "copy" if not self.dtors or t.bool(1, 2) else "new"), (2 if self.funcs else 0, "user"),
                        (1 if self.throws and t.bool(1, 3) else 0, "raise")])
        if depth <= 0 and k not in ("var", "new", "fresh", "copy"):
            k = "var"
        if k == "var":
            return Var(self.var())
        tag = t.choice("abcdefgh")
        if k == "new":
            return New(tag, t.int(0, 9))
        if k == "fresh":
            return Fn("fresh", [tag, t.int(0, 9)])
        if k == "orelse":
            return Fn("orelse", [Field(self.var(), t.choice(["Next", "Other"])), self.expr(depth - 1)])
        if k == "pick":
            return Fn("pick", [self.expr(depth - 1), self.expr(depth - 1), t.bool()])
        if k == "chain":
            return Fn("chain", [tag, self.expr(depth - 1)])
        if k == "self":
            e = self.expr(0)
            return e if isinstance(e, Method) else Method(e, "Self")
        if k == "build":
            return Fn("build", [t.int(1, 4)])
        if k == "copy":
            return Method(Var(self.var()), "copy")
        if k == "raise":
            return Fn("raise", [self.expr(depth - 1)])
        f = t.choice(sorted(self.funcs))
        return User(f, [self.expr(depth - 1) for _ in self.funcs[f][0]])

    def block(self, depth, names=()):
        self.scopes.append(set(names))
        b = self.stmts(depth)
        self.scopes.pop()
        return Block(b)

    def stmts(self, depth):
        body = []
        for _ in range(self.t.many(1, 7, 3)):
            if self.budget <= 0:
                break
            self.budget -= 1
            s = self.stmt(depth)
            if s is None:
                continue
            body.append(s)
            if s.ends:
                break
            body.append(Mark(self.id()))
        return body or [Mark(self.id())]

    def stmt(self, depth):
        t = self.t
        k = t.weighted([(5, "decl"), (5, "set"), (6, "field"), (2, "deep"), (1 if self.dtors else 3, "value"), (3, "show"), (2, "same"), (1, "empty"),
                        (2, "do"), (1, "replace")] + ([(2, "block"), (2, "for"), (2, "if"), (3, "try")] if depth > 0 else []) +
                       ([(2, "jump")] if self.loops or self.infunc else []) + ([(1, "throw")] if self.throws else []) +
                       ([(1, "exit")] if self.throws and t.bool(1, 8) else []))
        if k == "decl":
            names = [n for n in "uvwxyz" if n not in self.scopes[-1]]
            if not names:
                return None
            n = t.choice(names)
            shadow = any(n in s for s in self.scopes)
            e = self.expr()
            if shadow and (" %s" % n in " " + e.src() or "(%s" % n in e.src() or "%s." % n in e.src()):
                e = New("n", 1)
            self.scopes[-1].add(n)
            return Decl(n, e)
        if k == "replace":
            return Replace(self.expr())
        if k == "set":
            return Set(self.var(), self.expr())
        if k == "field":
            v = self.var()
            f = t.choice(["Next", "Other"])
            if t.bool(1, 12):
                return DeleteField(v, f)
            k = t.below(6)
            if k < 4:
                x = Var(self.var())
            else:
                x = Field(v if self.dtors else self.var(), t.choice(["Next", "Other"]))
            if k == 5:
                x = Field("nil", "Next")
            return SetField(v, f, x, self.dtors, 0 if k == 5 or isinstance(x, Field) else t.below(2))
        if k == "deep":
            if t.bool():
                return SetDeep(self.var(), t.choice(["Next", "Other"]), t.choice(["=", "+="]), t.int(0, 9))
            return SetDeep(self.var(), t.choice(["Next", "Other"]), t.choice(["Next", "Other"]), t.choice(["Next", "Other"]))
        if k == "value":
            return SetValue(self.var(), t.below(4), t.int(0, 99))
        if k == "show":
            return Show("p%d" % self.id(), self.expr(1) if t.bool() else Field(self.var(), t.choice(["Next", "Other"])))
        if k == "same":
            return Same("q%d" % self.id(), self.cmp(), self.cmp())
        if k == "empty":
            names = ["nx1", "nx2"]
            body = [Empty(n) if t.bool(2, 3) else Decl(n, self.expr(1)) for n in names]
            for _ in range(t.int(2, 6)):
                n = t.choice(names)
                if t.bool():
                    other = t.choice([Var(names[n == "nx1"]), Var(names[n == "nx1"]), Var(n), Null(), self.cmp()])
                    body.append(Same("q%d" % self.id(), *t.shuffle([Var(n), other])))
                else:
                    body.append(Delete(n) if t.bool(1, 4) else Set(n, t.choice([Var(names[n == "nx1"]), Field(self.var(), t.choice(["Next", "Other"])), self.expr(1)])))
            return Block(body)
        if k == "do":
            if t.bool(1, 3):
                return Do(Fn(t.choice(["fresh"]), ["z", 0])) if t.bool() else Do(Fn("drop", [self.expr(1)]))
            f = sorted(self.funcs)
            if f:
                f = t.choice(f)
                return Do(User(f, [self.expr(1) for _ in self.funcs[f][0]]))
            return Do(Fn("drop", [self.expr(1)]))
        if k == "block":
            return self.block(depth - 1)
        if k == "for":
            self.loops += 1
            b = self.block(depth - 1)
            self.loops -= 1
            return For("i%d" % self.id(), t.int(0, 3), b)
        if k == "if":
            return IfSame(self.cmp(), self.cmp(), self.block(depth - 1), self.block(depth - 1) if t.bool() else None)
        if k == "try":
            body = self.block(depth - 1)
            if self.throws and t.bool(1, 2) and not body.body[-1].ends:
                body.body.append(Jump("throw", self.expr(1)))
            n = "e%d" % self.id()
            h = self.block(depth - 1, [n]) if t.bool(4, 5) else None
            fin = self.block(depth - 1) if h is None or t.bool(1, 2) else None
            return Try(body, n, h, fin)
        if k == "throw":
            s = Jump("throw", self.expr(1))
        elif k == "exit":
            s = Quit(t.int(0, 7))
        else:
            ks = (["break", "continue"] if self.loops else []) + (["return"] if self.infunc else [])
            kind = t.choice(ks)
            s = Jump(kind, self.expr(1) if kind == "return" else None)
        if t.bool(2, 3):
            return IfSame(self.cmp(), self.cmp(), Block([s]), None)
        return s

    def cmp(self):
        return Field(self.var(), self.t.choice(["Next", "Other"])) if self.t.bool(1, 3) else Var(self.var())

    def program(self):
        t = self.t
        for i in range(t.int(0, 2)):
            params = ["a%d" % k for k in range(t.int(0, 2))]
            self.infunc = True
            self.scopes = [set(params) | {"nil"}]
            self.budget = 12
            body = [Decl("nil", New("nil", 0))] + self.stmts(2)
            if not isinstance(body[-1], Jump) or body[-1].kind != "return":
                body.append(Jump("return", self.expr(1)))
            self.funcs["f%d" % i] = (params, body)
            self.infunc = False
        self.scopes = [{"nil", "x"}]
        self.budget = 30
        main = [Set("G", New("g", 0)), Decl("nil", New("nil", 0)), Decl("x", New("x", 1))] + self.stmts(3)
        return self.funcs, main


def source(funcs, main, dtors, bases=()):
    r = [head(dtors, bases)]
    for n, (params, body) in sorted(funcs.items()):
        r.append("public Node %s(%s) modify throws {" % (n, ", ".join("Node " + p for p in params)))
        r += block(body, 1) + ["}"]
    r.append("public int Main(int argc, string args) modify throws {")
    r += block(main, 1) + ["\treturn 0;", "}", ""]
    return "\n".join(r)
