"""Statements and functions of generated Slang programs together with the reference interpreter for them.

Every node has emit(indent) -> lines and run(frame). Expressions are the nodes of nat.py (plus the calls and
assignments defined here); a Frame is the environment they are evaluated in.
"""
import nat
import vlib
from nat import Bin, Lit, Un, Var, const, text, to_bool, wrap, convert


class Fuel(Exception):
    """The program runs too long to be useful."""


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Return(Exception):
    def __init__(self, v, t):
        self.v, self.t = v, t


class Exit(Exception):
    def __init__(self, rc):
        self.rc = rc


class Thrown(Exception):
    def __init__(self, v, t):
        self.v, self.t = v, t


class Obj:
    """An object that reports its destruction; counted like a reference."""

    def __init__(self, tag, cls="Guard"):
        self.tag, self.cls, self.refs = tag, cls, 0


class Machine:
    def __init__(self, funcs=(), fuel=2500):
        self.out = []
        self.globals = {}
        self.types = {}
        self.funcs = {f.name: f for f in funcs}
        self.fuel = fuel
        self.depth = 0
        self.maxdepth = 0
        self.events = {}

    def step(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()

    def note(self, what):
        self.events[what] = self.events.get(what, 0) + 1

    def print(self, s):
        self.out.append(s)
        if len(self.out) > 400:
            raise Fuel()

    def retain(self, v):
        if isinstance(v, Obj):
            v.refs += 1
        return v

    def release(self, v):
        if isinstance(v, Obj):
            v.refs -= 1
            if v.refs == 0:
                self.print("~" + v.tag)

    def call(self, name, args):
        f = self.funcs[name]
        self.step()
        self.depth += 1
        if self.depth > 60:
            raise Fuel()
        self.maxdepth = max(self.maxdepth, self.depth)
        frame = Frame(self)
        frame.push()
        try:
            for (pt, pn), a in zip(f.params, args):
                frame.declare(pn, pt, a)
            try:
                for s in f.body:
                    s.run(frame)
            except Return as r:
                res = self.retain(r.v), r.t
            else:
                res = None, "void"
        finally:
            self.depth -= 1
            frame.pop()
        return res


class Frame:
    def __init__(self, machine):
        self.m = machine
        self.scopes = []

    def push(self):
        self.scopes.append({})

    def pop(self):
        s = self.scopes.pop()
        for n in sorted(s):
            self.m.release(s[n][1])

    def declare(self, name, typ, v):
        assert name not in self.scopes[-1], name
        self.scopes[-1][name] = [typ, self.m.retain(v)]

    def cell(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return self.m.globals[name]

    def __getitem__(self, name):
        return self.cell(name)[1]

    def assign(self, name, v):
        if isinstance(v, str) and len(v) > 250:
            raise Fuel()
        c = self.cell(name)
        old = c[1]
        c[1] = self.m.retain(v)
        self.m.release(old)


def ev(e, frame, want=None):
    v, t = e.eval(frame)
    if want is not None and want in nat.TYPES and t != want:
        v, t = convert(v, t, want), want
    return v, t


# ---- expressions ----

class Call(nat.E):
    __slots__ = ("name", "args", "params")
    prec = 5

    def __init__(self, name, args, st, params):
        self.name, self.args, self.st, self.params = name, args, st, params

    def emit(self, t=None):
        return "%s(%s)" % (self.name, ", ".join(a.emit(t) for a in self.args))

    def eval(self, frame):
        vals = []
        for a, pt in zip(self.args, self.params):
            vals.append(ev(a, frame, pt)[0])
        return frame.m.call(self.name, vals)

    def size(self):
        return 1 + sum(a.size() for a in self.args)


class AssignExpr(nat.E):
    """( name = e ) or name++ / name--, which all yield the new value."""
    __slots__ = ("name", "op", "e")
    prec = 5

    def __init__(self, name, op, e, st):
        self.name, self.op, self.e, self.st = name, op, e, st

    def emit(self, t=None):
        if self.op == "=":
            return "(%s = %s)" % (self.name, self.e.emit(t))
        return "(%s%s)" % (self.name, self.op)

    def eval(self, frame):
        if self.op == "=":
            v, _ = ev(self.e, frame, self.st)
        else:
            v = nat.arith(self.op[0], frame[self.name], 1, self.st)
        frame.assign(self.name, v)
        return v, self.st

    def size(self):
        return 1 + (self.e.size() if self.e is not None else 0)


class NewObj(nat.E):
    __slots__ = ("tag", "cls")
    prec = 5

    def __init__(self, tag, cls="Guard"):
        self.tag, self.cls, self.st = tag, cls, cls

    def emit(self, t=None):
        return "new %s(%s)" % (self.cls, self.tag.emit(t))

    def eval(self, frame):
        s, t = self.tag.eval(frame)
        frame.m.print("+" + s)
        frame.m.note("object")
        return Obj(s, self.cls), self.cls

    def size(self):
        return 1


EXC = {"E0": None, "E1": "E0", "E2": "E1", "F0": None}


def isa(t, want):
    while t is not None and t != want:
        t = EXC.get(t)
    return t == want


class NewExc(nat.E):
    """new E1(id): an exception object."""
    __slots__ = ("cls", "e")
    prec = 5

    def __init__(self, cls, e):
        self.cls, self.e, self.st = cls, e, cls

    def emit(self, t=None):
        return "new %s(%s)" % (self.cls, self.e.emit(t))

    def eval(self, frame):
        return (self.cls, ev(self.e, frame, "int")[0]), self.cls

    def size(self):
        return 1


class ExcId(nat.E):
    """name.Id() of an exception object: its class and number."""
    __slots__ = ("name",)
    prec = 5

    def __init__(self, name):
        self.name, self.st = name, "string"

    def emit(self, t=None):
        return self.name + ".Id()"

    def eval(self, frame):
        c, i = frame[self.name]
        return "%s:%d" % (c, i), "string"

    def size(self):
        return 1


class Risky(nat.E):
    """An operation of an object (constructor, method or operator) that throws its argument if it is 1 modulo 3."""
    __slots__ = ("how", "e")
    prec = 5
    FORMS = {"int": {"new": "(new Risk(%s)).Value()", "derived": "(new Risk2(%s)).Value()", "get": "(new Risk()).get(%s)", "+": "((new Risk()) + %s)"},
             "bool": {"==": "((new Risk()) == %s)", "<": "((new Risk()) < %s)"}}

    def __init__(self, how, e, st):
        self.how, self.e, self.st = how, e, st

    def emit(self, t=None):
        inner = self.e.emit(t)
        return self.FORMS[self.st][self.how] % ("(%s)" % inner if self.how in "+==<" else inner)

    def eval(self, frame):
        v = ev(self.e, frame, "int")[0]
        frame.m.print("risk%d" % v)
        frame.m.note("operation of an object")
        if v - 3 * (v // 3) == 1 and v > 0:
            frame.m.note("throw")
            frame.m.note("throwing operation of an object")
            raise Thrown(v, "int")
        return (v > 2, "bool") if self.st == "bool" else (v, "int")

    def size(self):
        return 1 + self.e.size()


# ---- statements ----

TAB = "\t"


class Stmt:
    ends = False            # control never continues after it

    def lines(self, ind):
        raise NotImplementedError


class Decl(Stmt):
    def __init__(self, typ, name, e, infer=False):
        self.typ, self.name, self.e, self.infer = typ, name, e, infer

    def lines(self, ind):
        if self.e is None:
            return [TAB * ind + "%s %s;" % (self.typ, self.name)]
        return [TAB * ind + "%s %s = %s;" % ("var" if self.infer else self.typ, self.name, self.e.emit())]

    def run(self, f):
        f.m.step()
        if self.e is None:
            v = {"int": 0, "bool": False, "string": "", "double": 0.0}.get(self.typ)
        else:
            v, _ = ev(self.e, f, self.typ)
        f.declare(self.name, self.typ, v)


class Assign(Stmt):
    def __init__(self, name, op, e, typ):
        self.name, self.op, self.e, self.typ = name, op, e, typ

    def lines(self, ind):
        if self.e is None:
            return [TAB * ind + "%s%s;" % (self.name, self.op)]
        return [TAB * ind + "%s %s %s;" % (self.name, self.op, self.e.emit())]

    def run(self, f):
        f.m.step()
        if self.e is None:
            v = nat.arith(self.op[0], f[self.name], 1, self.typ)
        elif self.op == "=":
            v, _ = ev(self.e, f, self.typ)
        else:
            # the compound form reads the variable before evaluating the right hand side
            old = f[self.name]
            v, t = ev(self.e, f)
            if self.typ == "string":
                v = old + text(v, t)
            else:
                v = nat.arith(self.op[0], old, convert(v, t, self.typ), self.typ)
        f.assign(self.name, v)
        if isinstance(v, Obj) and v.refs == 0:
            raise AssertionError


class Print(Stmt):
    def __init__(self, tag, e=None):
        self.tag, self.e = tag, e

    def lines(self, ind):
        if self.e is None:
            return [TAB * ind + 'print("%s");' % self.tag]
        return [TAB * ind + 'print("%s " + (%s));' % (self.tag, self.e.emit())]

    def run(self, f):
        f.m.step()
        if self.e is None:
            f.m.print(self.tag)
        else:
            v, t = ev(self.e, f)
            s = text(v, t)
            if len(s) > 300:
                raise Fuel()
            f.m.print(self.tag + " " + s)


class ExprStmt(Stmt):
    def __init__(self, e):
        self.e = e

    def lines(self, ind):
        return [TAB * ind + self.e.emit() + ";"]

    def run(self, f):
        f.m.step()
        v, _ = ev(self.e, f)
        if isinstance(v, Obj):
            v.refs += 1
            f.m.release(v)


class Block(Stmt):
    def __init__(self, body):
        self.body = body

    def lines(self, ind):
        return [TAB * ind + "{"] + self.inner(ind + 1) + [TAB * ind + "}"]

    def inner(self, ind):
        r = []
        for s in self.body:
            r += s.lines(ind)
        return r

    @property
    def ends(self):
        return bool(self.body) and self.body[-1].ends

    def run(self, f):
        f.push()
        try:
            for s in self.body:
                s.run(f)
        finally:
            f.pop()


def header_block(head, block, ind):
    """head { ... } or head statement; for blocks without braces."""
    if isinstance(block, Block):
        return [TAB * ind + head + " {"] + block.inner(ind + 1) + [TAB * ind + "}"]
    return [TAB * ind + head] + block.lines(ind + 1)


class If(Stmt):
    def __init__(self, c, a, b=None):
        self.c, self.a, self.b = c, a, b

    def lines(self, ind):
        r = header_block("if ( %s )" % self.c.emit(), self.a, ind)
        if self.b is not None:
            if isinstance(self.b, If):
                sub = self.b.lines(ind)
                r += [TAB * ind + "else " + sub[0].lstrip()] + sub[1:]
            else:
                r += header_block("else", self.b, ind)
        return r

    def run(self, f):
        f.m.step()
        v, t = ev(self.c, f)
        if to_bool(v, t):
            f.m.note("if-then")
            self.a.run(f)
        elif self.b is not None:
            f.m.note("if-else")
            self.b.run(f)


class While(Stmt):
    def __init__(self, c, body):
        self.c, self.body = c, body

    def lines(self, ind):
        return header_block("while ( %s )" % self.c.emit(), self.body, ind)

    def run(self, f):
        while True:
            f.m.step()
            v, t = ev(self.c, f)
            if not to_bool(v, t):
                return
            f.m.note("iteration")
            try:
                self.body.run(f)
            except Break:
                f.m.note("break")
                return
            except Continue:
                f.m.note("continue")


class For(Stmt):
    """init: Decl or Assign or None; step: Assign or None."""

    def __init__(self, init, c, step, body):
        self.init, self.c, self.step, self.body = init, c, step, body

    def lines(self, ind):
        i = self.init.lines(0)[0] if self.init else ";"
        c = self.c.emit() if self.c else ""
        s = self.step.lines(0)[0].rstrip(";") if self.step else ""
        return header_block("for ( %s %s; %s )" % (i, c, s), self.body, ind)

    def run(self, f):
        f.push()
        try:
            if self.init:
                self.init.run(f)
            while True:
                f.m.step()
                if self.c is not None:
                    v, t = ev(self.c, f)
                    if not to_bool(v, t):
                        return
                f.m.note("iteration")
                try:
                    self.body.run(f)
                except Break:
                    f.m.note("break")
                    return
                except Continue:
                    f.m.note("continue")
                if self.step:
                    self.step.run(f)
        finally:
            f.pop()


class Foreach(Stmt):
    """foreach over a Seq: values first, first+1, ... (count of them); hasNext or next may throw in step number k."""

    def __init__(self, name, first, count, k, body, infer=False):
        self.name, self.first, self.count, self.k, self.body, self.infer = name, first, count, k, body, infer

    def lines(self, ind):
        return header_block("foreach ( %s %s : new Seq(%s, %s, %d) )" % ("var" if self.infer else "int", self.name, self.first.emit(),
                                                                        self.count.emit(), self.k), self.body, ind)

    def run(self, f):
        f.push()
        try:
            first = ev(self.first, f, "int")[0]
            count = ev(self.count, f, "int")[0]
            i = 0
            while True:
                f.m.step()
                i += 1
                if self.k == -i:
                    f.m.note("throw")
                    raise Thrown("has%d" % i, "string")
                if i > count:
                    return
                if self.k == i:
                    f.m.note("throw")
                    raise Thrown(i, "int")
                f.m.note("foreach iteration")
                f.push()
                try:
                    f.declare(self.name, "int", wrap(first + i - 1, "int"))
                    self.body.run(f)
                except Break:
                    f.m.note("break")
                    return
                except Continue:
                    f.m.note("continue")
                finally:
                    f.pop()
        finally:
            f.pop()


class Switch(Stmt):
    def __init__(self, e, cases, default):
        self.e, self.cases, self.default = e, cases, default

    def lines(self, ind):
        r = [TAB * ind + "switch ( %s ) {" % self.e.emit()]
        for c, b in self.cases:
            r += header_block("case %s:" % c.emit(), b, ind + 1)
        if self.default is not None:
            r += header_block("default:", self.default, ind + 1)
        return r + [TAB * ind + "}"]

    def run(self, f):
        while True:
            f.m.step()
            v, t = ev(self.e, f)
            block = self.default
            for c, b in self.cases:
                cv, ct = ev(c, f)
                if convert(cv, ct, t) == v:
                    block = b
                    f.m.note("case")
                    break
            try:
                if block is not None:
                    block.run(f)
                return
            except Break:
                return
            except Continue:
                f.m.note("switch again")


class BreakStmt(Stmt):
    ends = True

    def lines(self, ind):
        return [TAB * ind + "break;"]

    def run(self, f):
        f.m.step()
        raise Break()


class ContinueStmt(Stmt):
    ends = True

    def lines(self, ind):
        return [TAB * ind + "continue;"]

    def run(self, f):
        f.m.step()
        raise Continue()


class ReturnStmt(Stmt):
    ends = True

    def __init__(self, e, typ):
        self.e, self.typ = e, typ

    def lines(self, ind):
        return [TAB * ind + ("return %s;" % self.e.emit() if self.e is not None else "return;")]

    def run(self, f):
        f.m.step()
        if self.e is None:
            raise Return(None, "void")
        v, t = ev(self.e, f, self.typ)
        f.m.note("return")
        raise Return(v, self.typ if self.typ in nat.TYPES else t)


class Throw(Stmt):
    ends = True

    def __init__(self, e=None):
        self.e = e

    def lines(self, ind):
        return [TAB * ind + ("throw %s;" % self.e.emit() if self.e is not None else "throw;")]

    def run(self, f):
        f.m.step()
        f.m.note("throw")
        if self.e is None:
            cur = f.m.handling[-1]
            raise Thrown(cur.v, cur.t)
        v, t = ev(self.e, f)
        raise Thrown(f.m.retain(v), t)


class ExitStmt(Stmt):
    ends = True

    def __init__(self, e):
        self.e = e

    def lines(self, ind):
        return [TAB * ind + "exit(%s);" % self.e.emit()]

    def run(self, f):
        f.m.step()
        raise Exit(ev(self.e, f, "int")[0])


class Try(Stmt):
    """catches: list of (type or None, name, block); no catch at all swallows every exception."""

    def __init__(self, body, catches, fin):
        self.body, self.catches, self.fin = body, catches, fin

    def lines(self, ind):
        r = header_block("try", self.body, ind)
        for typ, name, b in self.catches:
            r += header_block("catch ( %s %s )" % (typ, name) if typ else "catch", b, ind)
        if self.fin is not None:
            r += header_block("finally", self.fin, ind)
        return r

    def run(self, f):
        m = f.m
        m.step()
        if not hasattr(m, "handling"):
            m.handling = []
        try:
            self.guarded(f)
            pending = None
        except (Thrown, Break, Continue, Return, Exit) as e:
            pending = e
        if self.fin is not None:
            m.note("finally")
            self.fin.run(f)
        if pending is not None:
            raise pending

    def guarded(self, f):
        m = f.m
        try:
            self.body.run(f)
        except Thrown as e:
            if not self.catches:
                m.note("swallowed")
                m.release(e.v)
                return
            for typ, name, b in self.catches:
                if typ and not isa(e.t, typ):
                    m.note("catch skipped")
                    continue
                m.note("caught")
                m.handling.append(e)
                f.push()
                try:
                    if typ:
                        f.declare(name, typ, e.v)
                    b.run(f)
                finally:
                    f.pop()
                    m.handling.pop()
                return
            m.note("propagated")
            raise


class Func:
    def __init__(self, name, params, ret, body):
        self.name, self.params, self.ret, self.body = name, params, ret, body

    def lines(self, ind=0):
        ps = ", ".join("%s %s" % p for p in self.params)
        r = [TAB * ind + "public %s %s(%s) throws {" % (self.ret, self.name, ps)]
        for s in self.body:
            r += s.lines(ind + 1)
        return r + [TAB * ind + "}"]


GUARD = '''public object Guard {
	public void Constructor(string tag) { mTag = tag; print("+" + mTag); }
	public void Destructor() { print("~" + mTag); }
	public string Tag() const { return mTag; }
	private string mTag;
}
'''

CLASSES = '''public object Seq {
	public void Constructor(int first, int count, int fail) { mFirst = first; mCount = count; mFail = fail; }
	public SeqIterator getIterator() const { return new SeqIterator(mFirst, mCount, mFail); }
	private int mFirst;
	private int mCount;
	private int mFail;
}
public object SeqIterator {
	public void Constructor(int first, int count, int fail) { mFirst = first; mCount = count; mFail = fail; mIndex = 0; }
	public bool hasNext() const throws {
		if ( mFail == -1 * mIndex - 1 ) { throw "has" + (mIndex + 1); }
		return mIndex < mCount;
	}
	public int next() modify throws {
		mIndex++;
		if ( mIndex == mFail ) { throw mIndex; }
		return mFirst + mIndex - 1;
	}
	private int mFirst;
	private int mCount;
	private int mFail;
	private int mIndex;
}
public object E0 {
	public void Constructor(int id) { mId = id; }
	public string Id() const { return "E0:" + mId; }
	protected int mId;
}
public object E1 extends E0 {
	public void Constructor(int id) { mId = id; }
	public string Id() const { return "E1:" + mId; }
}
public object E2 extends E1 {
	public void Constructor(int id) { mId = id; }
	public string Id() const { return "E2:" + mId; }
}
public object Risk {
	public void Constructor(int v) throws { mV = check(v); }
	public void Constructor() { mV = 0; }
	public int Value() const { return mV; }
	public int get(int v) const throws { return check(v); }
	public int operator+(int v) const throws { return check(v); }
	public bool operator==(int v) const throws { return check(v) > 2; }
	public bool operator<(int v) const throws { return check(v) > 2; }
	protected int check(int v) const throws {
		print("risk" + v);
		if ( v > 0 && v % 3 == 1 ) { throw v; }
		return v;
	}
	private int mV;
}
public object Risk2 extends Risk {
}
public object F0 {
	public void Constructor(int id) { mId = id; }
	public string Id() const { return "F0:" + mId; }
	private int mId;
}
'''

TRACE = '''public int ti(int id, int v) { print("t" + id); return v; }
public bool tb(int id, bool v) { print("t" + id); return v; }
public string ts(int id, string v) { print("t" + id); return v; }
public int boom(int id) throws { print("boom" + id); throw id; return id; }
'''


class TraceFn:
    """Helper functions of TRACE, as the machine sees them."""

    def __init__(self, name, ret, throws=False):
        self.name, self.ret, self.throws = name, ret, throws
        self.params = [("int", "id"), (ret, "v")]
        self.body = [self]

    def run(self, f):
        if self.throws:
            f.m.print("boom%d" % f["id"])
            f.m.note("throw")
            raise Thrown(f["id"], "int")
        f.m.print("t%d" % f["id"])
        raise Return(f["v"], self.ret)


def trace_funcs():
    b = TraceFn("boom", "int", True)
    b.params = [("int", "id")]
    return [TraceFn("ti", "int"), TraceFn("tb", "bool"), TraceFn("ts", "string"), b]


def execute(funcs, main, globals_=()):
    """Runs main (list of statements); returns (lines, exit status, machine)."""
    m = Machine(list(funcs) + trace_funcs())
    for typ, name, v in globals_:
        m.globals[name] = [typ, v]
    m.funcs["Main"] = Func("Main", [], "int", main)
    rc = 0
    try:
        v, _ = m.call("Main", [])
        rc = (v or 0) & 0xff
    except Thrown:
        rc = 255
    except Exit as e:
        rc = e.rc & 0xff
    return m.out, rc, m


def normal(lines):
    """The order in which objects released together are destroyed is not part of any statement."""
    r = []
    run = []
    for x in lines:
        if x.startswith("~"):
            run.append(x)
        else:
            r += sorted(run) + [x]
            run = []
    return r + sorted(run)


def strip_trace(out):
    """Removes the native stack trace that follows an uncaught exception."""
    lines = out.split("\n")
    if lines and lines[-1] == "":
        lines.pop()
    if "Stack trace:" in lines:
        i = lines.index("Stack trace:")
        j = i + 1
        while j < len(lines) and ("[0x" in lines[j] or lines[j].startswith("/")):
            j += 1
        lines = lines[:i] + lines[j:]
    return lines


def check(expected, rc, got):
    """Failure description or None. expected: list of lines."""
    have = strip_trace(got.out.decode("utf-8", "surrogateescape"))
    g = vlib.Out(got.rc, "\n".join(normal(have)).encode("utf-8", "surrogateescape"), got.err, got.timeout)
    return vlib.compare_output("\n".join(normal(expected)), rc, g)


# ---- generator ----

POOL = {"int": ["a", "b", "c", "d"], "bool": ["p", "q"], "string": ["s", "u"]}


class Gen:
    """Random programs. opt: weights of the statement kinds and feature switches."""

    def __init__(self, t, weights=None, guards=False, throws=True, trace=1, exits=False, depth=3, probe=False):
        self.t = t
        self.probe = probe
        self.w = {"decl": 4, "assign": 5, "print": 5, "block": 1, "if": 3, "while": 2, "for": 3, "switch": 2,
                  "try": 2, "throw": 1, "jump": 2, "call": 2, "foreach": 2, "guard": 0, "exit": 0, "global": 0}
        if weights:
            self.w.update(weights)
        if guards:
            self.w["guard"] = max(self.w["guard"], 2)
        self.throws = throws
        self.trace = trace
        self.maxdepth = depth
        self.n = 0
        self.funcs = []
        self.scopes = []
        self.protected = set()
        self.loops = 0
        self.switches = 0
        self.catching = 0
        self.ret = None
        self.budget = 60

    def id(self):
        self.n += 1
        return self.n

    # names
    def visible(self, typ, writable=False):
        seen = set()
        r = []
        for s in reversed(self.scopes):
            for n, vt in s.items():
                if n in seen:
                    continue
                seen.add(n)
                if vt == typ and not (writable and n in self.protected):
                    r.append(n)
        return sorted(r)

    def fresh(self, typ):
        names = [n for n in POOL[typ] if n not in self.scopes[-1]]
        return self.t.choice(names) if names else None

    # expressions
    def expr(self, typ, depth=2, avoid=None):
        t = self.t
        if self.trace and t.bool(self.trace, 12) and depth > 0:
            fn = {"int": "ti", "bool": "tb", "string": "ts"}[typ]
            return Call(fn, [Lit(self.id(), "int"), self.expr(typ, depth - 1, avoid)], typ, ["int", typ])
        if depth <= 0 or t.bool(1, 3):
            names = [n for n in self.visible(typ) if n != avoid]
            if names and t.bool(3, 4):
                return Var(t.choice(names), typ)
            if typ == "int":
                return const(t.int(-3, 9), "int")
            if typ == "bool":
                return Lit(t.bool(), "bool")
            return Lit(t.choice(["", "x", "yz", "k"]), "string")
        if depth > 0 and self.funcs and t.bool(1, 8):
            c = self.callexpr(typ, depth - 1, avoid)
            if c is not None:
                return c
        if self.throws == "objects" and typ in Risky.FORMS and t.bool(1, 14):
            return Risky(t.choice(sorted(Risky.FORMS[typ])), self.expr("int", depth - 1, avoid), typ)
        if typ == "int":
            k = t.below(8)
            if k == 0:
                return nat.Tern(self.expr("bool", depth - 1, avoid), self.expr("int", depth - 1, avoid), self.expr("int", depth - 1, avoid))
            if k == 1:
                return Bin(t.choice("%/"), self.expr("int", depth - 1, avoid), Lit(t.int(2, 7), "int"), "int")
            if k == 2 and self.throws and self.trace and t.bool(1, 4):
                return Call("boom", [Lit(self.id(), "int")], "int", ["int"])
            return Bin(t.choice("+-*+-"), self.expr("int", depth - 1, avoid), self.expr("int", depth - 1, avoid), "int")
        if typ == "bool":
            k = t.below(6)
            if k == 0:
                return Un("!", self.expr("bool", depth - 1, avoid), "bool")
            if k < 3:
                return Bin(t.choice(["&&", "||", "!&"]), self.expr("bool", depth - 1, avoid), self.expr("bool", depth - 1, avoid), "bool")
            return Bin(t.choice(nat.CMP), self.expr("int", depth - 1, avoid), self.expr("int", depth - 1, avoid), "bool")
        return Bin("+", self.expr("string", depth - 1, avoid), self.expr(t.choice(["int", "string", "bool"]), depth - 1, avoid), "string")

    def callexpr(self, typ, depth, avoid=None):
        fs = [f for f in self.funcs if f.ret == typ]
        if not fs:
            return None
        f = self.t.choice(fs)
        return Call(f.name, [self.expr(pt, depth, avoid) for pt, _ in f.params], typ, [pt for pt, _ in f.params])

    # statements
    def block(self, depth, pre=()):
        self.scopes.append({})
        body = list(pre) + self.stmts(depth)
        self.scopes.pop()
        return Block(body)

    def stmts(self, depth):
        body = []
        for _ in range(self.t.many(1, 6, 2)):
            if self.budget <= 0:
                break
            s = self.stmt(depth)
            if s is None:
                continue
            body += s if isinstance(s, list) else [s]
            if body[-1].ends:
                break
        if not body:
            body = [Print("n%d" % self.id())]
        return body

    def stmt(self, depth):
        t = self.t
        self.budget -= 1
        kinds = list(self.w.items())
        if depth <= 0:
            kinds = [(k, w) for k, w in kinds if k not in ("block", "if", "while", "for", "foreach", "switch", "try")]
        kind = t.weighted([(w, k) for k, w in kinds if w])
        s = getattr(self, "s_" + kind)(depth)
        if self.probe and kind in ("block", "if", "while", "for", "foreach", "switch", "try") and s is not None:
            s = s if isinstance(s, list) else [s]
            if not s[-1].ends:
                for typ in ("int", "string", "bool"):
                    s += [Print(n, Var(n, typ)) for n in self.visible(typ) if t.bool(2, 3)]
        return s

    def s_decl(self, depth):
        t = self.t
        typ = t.choice(["int", "int", "bool", "string"])
        n = self.fresh(typ)
        if n is None:
            return None
        e = None if t.bool(1, 8) else self.expr(typ, 2, avoid=n)
        self.scopes[-1][n] = typ
        return Decl(typ, n, e, infer=e is not None and t.bool(1, 6))

    def s_assign(self, depth):
        t = self.t
        typ = t.choice(["int", "int", "string", "bool"])
        names = self.visible(typ, True)
        if not names:
            return self.s_decl(depth)
        n = t.choice(names)
        if typ == "int":
            k = t.below(4)
            if k == 0:
                return Assign(n, t.choice(["++", "--"]), None, typ)
            if k == 1:
                return Assign(n, t.choice(["+=", "-=", "*="]), self.expr(typ), typ)
        elif typ == "string" and t.bool(1, 2):
            return Assign(n, "+=", self.expr(t.choice(["string", "int"])), typ)
        return Assign(n, "=", self.expr(typ), typ)

    def s_print(self, depth):
        if self.t.bool(1, 3):
            return Print("n%d" % self.id())
        return Print("n%d" % self.id(), self.expr(self.t.choice(["int", "string", "bool"]), 2))

    def s_guard(self, depth):
        n = "g%d" % self.id()
        self.scopes[-1][n] = "Guard"
        return Decl("Guard", n, NewObj(Bin("+", Lit(n + ".", "string"), self.expr("int", 0), "string")))

    def s_block(self, depth):
        return self.block(depth - 1)

    def body(self, depth):
        """A braced block, or now and then a single statement."""
        if self.t.bool(1, 6):
            self.scopes.append({})
            s = self.t.choice([self.s_print, self.s_assign])(0)
            self.scopes.pop()
            if s is not None and not isinstance(s, (list, Decl)):
                return s
        return self.block(depth)

    def s_if(self, depth):
        c = self.expr("bool", 2)
        a = self.body(depth - 1)
        b = None
        if self.t.bool(1, 2):
            b = self.s_if(depth - 1) if self.t.bool(1, 4) and depth > 1 else self.body(depth - 1)
        if b is not None and not isinstance(a, Block):
            a = Block([a])
        return If(c, a, b)

    def s_while(self, depth):
        n = "w%d" % self.id()
        self.scopes[-1][n] = "int"
        self.protected.add(n)
        self.loops += 1
        sw, self.switches = self.switches, 0
        c = Bin("<", Var(n, "int"), Lit(self.t.int(0, 4), "int"), "bool")
        if self.t.bool(1, 3):
            c = Bin("&&", c, self.expr("bool", 1), "bool")
        body = self.block(depth - 1, [Assign(n, "++", None, "int")])
        self.switches = sw
        self.loops -= 1
        return [Decl("int", n, Lit(0, "int")), While(c, body)]

    def s_for(self, depth):
        t = self.t
        n = "i%d" % self.id() if t.bool(2, 3) else "i"
        if n == "i" and any("i" in s and "i" in self.protected for s in self.scopes):
            n = "i%d" % self.id()
        k = t.int(0, 4)
        form = t.below(6)
        self.scopes.append({n: "int"})
        was = n in self.protected
        self.protected.add(n)
        self.loops += 1
        sw, self.switches = self.switches, 0
        cond = Bin("<", Var(n, "int"), Lit(k, "int"), "bool")
        if self.trace and t.bool(1, 6):
            cond = Call("tb", [Lit(self.id(), "int"), cond], "bool", ["int", "bool"])
        step = Assign(n, "++", None, "int")
        init = Decl("int", n, Lit(0, "int"))
        if form == 1:
            init = Decl("int", n, Lit(k, "int"))
            cond = Bin(">", Var(n, "int"), Lit(0, "int"), "bool")
            step = Assign(n, "--", None, "int")
        elif form == 2:
            step = Assign(n, "+=", Lit(t.int(1, 2), "int"), "int")
        elif form == 3:
            step = Assign(n, "=", Bin("+", Var(n, "int"), Call("ti", [Lit(self.id(), "int"), Lit(1, "int")], "int", ["int", "int"]), "int"), "int")
        pre = []
        if form == 4:
            pre = [If(Bin(">=", Var(n, "int"), Lit(k, "int"), "bool"), Block([BreakStmt()]))]
            cond = None
        if form == 5 and self.throws:
            e = self.expr("int", 1, avoid=n)
            init = Decl("int", n, nat.Tern(Bin(">", e, Lit(6, "int"), "bool"), Call("boom", [Lit(self.id(), "int")], "int", ["int"]), Lit(0, "int")))
        body = self.block(depth - 1, pre)
        self.switches = sw
        self.loops -= 1
        self.scopes.pop()
        if not was:
            self.protected.discard(n)
        return For(init, cond, step, body)

    def machine(self, depth):
        """A switch whose blocks change the value and let the switch look at it again."""
        t = self.t
        k = self.id()
        state, rounds = "s%d" % k, "r%d" % k
        typ = t.choice(["int", "string"])
        pool = {"int": [0, 1, 2, 7], "string": ["", "x", "yz", "k"]}[typ]
        init = const(t.choice(pool), typ)
        for n, ty in ((state, typ), (rounds, "int")):
            self.scopes[-1][n] = ty
            self.protected.add(n)
        self.switches += 1

        def again():
            self.scopes.append({})
            body = [Assign(rounds, "++", None, "int")] + (self.stmts(depth - 1) if t.bool(1, 2) else [Print("n%d" % self.id(), Var(state, typ))])
            self.scopes.pop()
            if not body[-1].ends:
                body.append(If(Bin(">", Var(rounds, "int"), Lit(3, "int"), "bool"), Block([BreakStmt()])))
                body.append(Assign(state, "=", const(t.choice(pool), typ), typ))
                body.append(ContinueStmt())
            return Block(body)

        cases = [(const(v, typ), again() if t.bool(2, 3) else self.caseblock(depth - 1)) for v in t.sample(pool, t.int(1, 3))]
        default = again() if t.bool(2, 3) else self.caseblock(depth - 1) if t.bool(1, 2) else None
        self.switches -= 1
        return [Decl(typ, state, init), Decl("int", rounds, Lit(0, "int")), Switch(Var(state, typ), cases, default)]

    def s_foreach(self, depth):
        t = self.t
        n = "v%d" % self.id()
        first = self.expr("int", 1)
        count = Lit(t.int(0, 4), "int")
        if self.trace and t.bool(1, 4):
            count = Call("ti", [Lit(self.id(), "int"), count], "int", ["int", "int"])
        k = t.int(1, 3) * (1 if t.bool() else -1) if self.throws and t.bool(1, 5) else 0
        self.scopes.append({n: "int"})
        self.protected.add(n)
        self.loops += 1
        sw, self.switches = self.switches, 0
        body = self.block(depth - 1, [Print("n%d" % self.id(), Var(n, "int"))] if t.bool(1, 3) else ())
        self.switches = sw
        self.loops -= 1
        self.scopes.pop()
        return Foreach(n, first, count, k, body)

    def s_switch(self, depth):
        t = self.t
        if t.bool(1, 3):
            return self.machine(depth)
        typ = t.choice(["int", "int", "string", "bool"])
        e = self.expr(typ, 1)
        if typ == "int" and t.bool(1, 2):
            e = Bin("%", e, Lit(3, "int"), "int")
        self.switches += 1
        cases = []
        again = self.visible("int", True)
        if typ == "int" and again and t.bool(1, 4):
            e = Var(t.choice(again), "int")
        pool = {"int": [0, 1, 2, -1, 3], "string": ["", "x", "yz", "x1"], "bool": [True, False]}[typ]
        for v in t.sample(pool, t.int(1, min(3, len(pool)))):
            c = const(v, typ)
            if self.trace and t.bool(1, 8):
                c = Call({"int": "ti", "string": "ts", "bool": "tb"}[typ], [Lit(self.id(), "int"), c], typ, ["int", typ])
            cases.append((c, self.caseblock(depth - 1)))
        if isinstance(e, Var) and typ == "int" and t.bool(2, 3):
            # a case that changes the value and lets the switch look at it again
            b = cases[-1][1]
            while b.body[-1].ends:
                b.body.pop()
                if not b.body:
                    break
            names = [n for n in self.visible("int", True) if n == e.name]
            if names and not any(isinstance(x, Decl) and x.name == e.name for x in b.body):
                b.body += [Assign(e.name, t.choice(["++", "--"]), None, "int"), ContinueStmt()]
            else:
                b.body += [BreakStmt()]
        default = self.caseblock(depth - 1) if t.bool(2, 3) else None
        self.switches -= 1
        return Switch(e, cases, default)

    def caseblock(self, depth):
        b = self.block(depth)
        if not b.body[-1].ends:
            b.body.append(BreakStmt())
        return b

    def s_try(self, depth):
        t = self.t
        body = self.block(depth - 1)
        if t.bool(1, 3) and not body.body[-1].ends:
            body.body.append(self.throw())
        catches = []
        types = t.sample(["int", "string", "bool"] + (["E0", "E1", "E2", "F0"] if self.throws == "objects" else []), t.int(0, 3))
        for typ in types:
            n = "e%d" % self.id()
            self.catching += 1
            self.scopes.append({n: typ})
            self.protected.add(n)
            b = self.block(depth - 1, [Print("n%d" % self.id(), ExcId(n) if typ in EXC else Var(n, typ))] if typ in EXC or t.bool(1, 3) else ())
            self.scopes.pop()
            self.catching -= 1
            catches.append((typ, n, b))
        if t.bool(1, 3):
            self.catching += 1
            catches.append((None, None, self.block(depth - 1)))
            self.catching -= 1
        fin = None
        if t.bool(1, 2) or not catches:
            c, self.catching = self.catching, 0      # which exception a rethrow in here means is not defined
            fin = self.block(depth - 1)
            self.catching = c
        if not catches and fin is None:
            fin = Block([Print("n%d" % self.id())])
        return Try(body, catches, fin)

    def throw(self):
        t = self.t
        if self.catching and t.bool(1, 3):
            return Throw()
        if self.throws == "objects" and t.bool(1, 2):
            return Throw(NewExc(t.choice(["E0", "E1", "E2", "F0"]), self.expr("int", 1)))
        return Throw(self.expr(t.choice(["int", "string"]), 1))

    def s_throw(self, depth):
        if not self.throws or self.t.bool(1, 3):
            return None
        return If(self.expr("bool", 2), Block([self.throw()])) if self.t.bool(2, 3) else self.throw()

    def s_jump(self, depth):
        t = self.t
        ks = []
        if self.loops or self.switches:
            ks += ["break", "break", "continue"] if not self.switches else ["break"]
        if self.ret is not None:
            ks += ["return"]
        if not ks:
            return None
        k = t.choice(ks)
        s = {"break": BreakStmt, "continue": ContinueStmt}[k]() if k != "return" else self.ret_stmt()
        if t.bool(3, 4):
            return If(self.expr("bool", 2), Block([s]))
        return s

    def ret_stmt(self):
        if self.ret == "void":
            return ReturnStmt(None, "void")
        if self.ret == "Guard":
            return ReturnStmt(NewObj(Lit("r%d" % self.id(), "string")), "Guard")
        return ReturnStmt(self.expr(self.ret, 1), self.ret)

    def s_call(self, depth):
        if not self.funcs:
            return None
        f = self.t.choice(self.funcs)
        return ExprStmt(Call(f.name, [self.expr(pt, 1) for pt, _ in f.params], f.ret, [pt for pt, _ in f.params]))

    def s_exit(self, depth):
        s = ExitStmt(Lit(self.t.int(0, 9), "int"))
        return If(self.expr("bool", 1), Block([s]))

    def s_global(self, depth):
        n = self.t.choice(["G", "H"])
        typ = "int" if n == "G" else "string"
        return Assign(n, "+=" , self.expr("int", 1), typ)

    def function(self, name, ret, params, depth):
        self.scopes.append({n: ty for ty, n in params})
        old = self.ret, self.budget, self.loops, self.switches, self.catching
        self.ret, self.loops, self.switches, self.catching = ret, 0, 0, 0
        self.budget = 18
        body = self.stmts(depth)
        if ret != "void" and not body[-1].ends:
            body.append(self.ret_stmt())
        elif ret != "void" and not isinstance(body[-1], (ReturnStmt,)):
            body.append(self.ret_stmt())
        self.ret, self.budget, self.loops, self.switches, self.catching = old
        self.scopes.pop()
        f = Func(name, params, ret, body)
        return f

    def program(self, nfuncs=3, main_return=True):
        t = self.t
        gl = [("int", "G", 0), ("string", "H", "")]
        if self.w["global"]:
            self.scopes.append({"G": "int", "H": "string"})
        for i in range(t.int(0, nfuncs)):
            params = [(t.choice(["int", "int", "string", "bool"]), "x%d" % k) for k in range(t.int(0, 3))]
            ret = t.choice(["int", "int", "bool", "string", "void"])
            self.funcs.append(self.function("f%d" % i, ret, params, self.maxdepth - 1))
        self.ret = "int" if main_return else None
        self.scopes.append({})
        self.budget = 45
        main = self.stmts(self.maxdepth)
        while len(main) < 3 and not main[-1].ends:
            main += self.stmts(self.maxdepth)
        self.scopes.pop()
        return self.funcs, main, gl


def source(funcs, main, gl=(), head=GUARD + CLASSES + TRACE):
    lines = [head]
    for typ, name, v in gl:
        lines.append("public %s %s;" % (typ, name))
    for f in funcs:
        lines += f.lines()
    lines.append("public int Main(int argc, string args) modify throws {")
    for s in main:
        lines += s.lines(1)
    lines.append("\treturn 0;\n}\n")
    return "\n".join(lines)
