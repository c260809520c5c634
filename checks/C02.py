"""Order of evaluation: every operand reports when it is evaluated."""
import prog
from nat import *
from prog import AssignExpr, Call, Frame, Machine, Return, Thrown, ev
from vlib import Result, compare_output

PROPERTY = "C02"
LEVEL = "exploration"
CASES = {"quick": 27000, "thorough": 120000}
RULE = ("case = program with up to 14 statements whose expressions contain calls that report their evaluation, assignments and "
        "increments as operands, throwing operands, calls, method calls, constructors and overloaded operators with several "
        "arguments, conditionals and logic operators; an expression is non-trivial if at least three reports were made or "
        "skipped by it; distinct counts expression texts")


class Tr:
    def __init__(self, typ, throws=False):
        self.name = ("boom_" if throws else "t_") + typ
        self.ret, self.throws = typ, throws
        self.params = [("int", "id"), (typ, "v")]
        self.body = [self]

    def run(self, f):
        f.m.print("t%d" % f["id"])
        if self.throws:
            raise Thrown(f["id"], "int")
        raise Return(f["v"], self.ret)

    def source(self):
        if self.throws:
            return 'public %s %s(int id, %s v) throws { print("t" + id); throw id; return v; }' % (self.ret, self.name, self.ret)
        return 'public %s %s(int id, %s v) { print("t" + id); return v; }' % (self.ret, self.name, self.ret)


class Sum:
    """Functions, methods, constructors and operators with several arguments."""
    name = "sum3"
    ret = "string"
    params = [("int", "a"), ("string", "b"), ("int", "c")]

    def __init__(self):
        self.body = [self]

    def run(self, f):
        raise Return("<%d,%s,%d>" % (f["a"], f["b"], f["c"]), "string")


class Special(E):
    """Other forms that evaluate int/string/int arguments in order. mode: text with three places."""
    __slots__ = ("mode", "args")
    prec = 5
    FORMS = ["box.Sum(%s, %s, %s)", "new Box(7).Sum(%s, %s, %s)", "new Trio(%s, %s, %s).Text()", "N.Sum(%s, %s, %s)",
             "makeBox(8).Sum(%s, %s, %s)", "(box + %s).Sum(1, %s, %s)"]

    def __init__(self, mode, args):
        self.mode, self.args, self.st = mode, args, "string"

    def emit(self, t=None):
        return self.FORMS[self.mode] % tuple(a.emit(t) for a in self.args)

    def eval(self, f):
        if self.mode == 1:
            f.m.print("box 7")
        if self.mode == 4:
            f.m.print("makeBox")
            f.m.print("box 8")
        vals = [ev(a, f, p)[0] for a, p in zip(self.args, ("int", "string", "int"))]
        if self.mode == 2:
            f.m.print("trio")
        return "<%d,%s,%d>" % tuple(vals), "string"

    def size(self):
        return 1 + sum(a.size() for a in self.args)


HEAD = '''public string sum3(int a, string b, int c) { return "<" + a + "," + b + "," + c + ">"; }
public object Box {
	public void Constructor(int id) { print("box " + id); }
	public string Sum(int a, string b, int c) const { return "<" + a + "," + b + "," + c + ">"; }
}
public object Trio {
	public void Constructor(int a, string b, int c) { print("trio"); mText = "<" + a + "," + b + "," + c + ">"; }
	public string Text() const { return mText; }
	private string mText;
}
public Box makeBox(int id) { print("makeBox"); return new Box(id); }
public namespace N { public string Sum(int a, string b, int c) { return "<" + a + "," + b + "," + c + ">"; } }
'''


def gen(t):
    variables = {}
    values = {}
    for typ in ("bool", "int", "int", "int64", "double", "string", "string"):
        n = "v_%s%d" % (typ, len(variables))
        variables[n] = typ
        values[n] = gen_value(t, typ) if typ not in INTS else t.int(-5, 20)
    ids = [0]

    def nid():
        ids[0] += 1
        return Lit(ids[0], "int")

    def extra(typ, depth):
        if depth < 0:
            return None
        k = t.below(8)
        if k < 4:
            inner = g.gen(typ, depth - 1) if depth > 0 else g.leaf(typ)
            if t.bool(1, 30):
                return Call("boom_" + typ, [nid(), inner], typ, ["int", typ])
            return Call("t_" + typ, [nid(), inner], typ, ["int", typ])
        if k == 4 and depth > 0:
            names = [n for n, vt in variables.items() if vt == typ]
            if names:
                n = t.choice(names)
                if typ in NUM and t.bool():
                    return AssignExpr(n, t.choice(["++", "--"]), None, typ)
                return AssignExpr(n, "=", g.gen(typ, depth - 1), typ)
        if k == 5 and typ == "string" and depth > 0:
            args = [g.gen("int", depth - 1), g.gen("string", depth - 1), g.gen("int", depth - 1)]
            if t.bool(1, 4):
                return Call("sum3", args, "string", ["int", "string", "int"])
            return Special(t.below(5), args)
        return None

    g = ExprGen(t, variables, mixed=False, extra=extra)
    trs = [Tr(typ, th) for typ in TYPES for th in (False, True)]
    m = Machine(trs + [Sum()], fuel=10 ** 9)
    frame = Frame(m)
    frame.push()
    body = ["Box box = new Box(0);"]
    m.print("box 0")
    for n, typ in variables.items():
        frame.declare(n, typ, values[n])
        body.append("%s %s = %s;" % (typ, n, const(values[n], typ).emit()))
    keys = []
    n_eval = 0
    for k in range(t.many(1, 14, 8)):
        typ = t.choice(["bool", "bool", "int", "string", "string", "double", "int64"])
        e = g.gen(typ, t.int(1, 4))
        src = e.emit(t)
        first = ids[0]
        snap = {n: list(c) for n, c in frame.scopes[0].items()}
        nout = len(m.out)
        form = t.below(6)
        how = None
        try:
            try:
                if form == 0:
                    stmt = 'if ( %s ) { print("then"); } else { print("else"); }' % src
                    v, rt = ev(e, frame)
                    m.print("then" if to_bool(v, rt) else "else")
                elif form == 1 and [n for n, vt in variables.items() if vt == typ]:
                    n = t.choice([n for n, vt in variables.items() if vt == typ])
                    if typ in NUM or typ == "string":
                        op = "+" if typ == "string" else t.choice("+-*")
                        stmt = '%s %s= %s; print("=" + %s);' % (n, op, src, n)
                        old = frame[n]
                        v, rt = ev(e, frame)
                        v = old + v if typ == "string" else arith(op, old, convert(v, rt, typ), typ)
                    else:
                        stmt = '%s = %s; print("=" + %s);' % (n, src, n)
                        v, rt = ev(e, frame, typ)
                    frame.assign(n, v)
                    m.print("=" + text(v, typ))
                else:
                    stmt = 'print("r" + (%s));' % src
                    v, rt = ev(e, frame)
                    m.print("r" + text(v, rt))
                if rt in REALS and v != v:
                    raise Undefined()
                how = "normal"
            except Thrown as x:
                m.print("caught %d" % x.v)
                how = "thrown"
            if any(len(x) > 300 for x in m.out[nout:]):
                raise Undefined()
        except (Undefined, prog.Fuel):
            frame.scopes[0] = snap
            del m.out[nout:]
            continue
        t.label("statement " + how)
        body.append('try { %s } catch ( int e ) { print("caught " + e); }' % stmt)
        n_eval += 1
        if src.count("t_") + src.count("boom_") >= 3:
            keys.append(src)
            t.label("nontrivial expressions")
        # the values of the variables after it
        body.append('print("%d:" + %s);' % (k, ' + "|" + '.join(variables)))
        try:
            m.print("%d:" % k + "|".join(text(frame[n], variables[n]) for n in variables))
        except Undefined:
            body.pop()
    src = HEAD + "\n".join(x.source() for x in trs) + "\npublic int Main(int argc, string args) modify throws {\n\t" + "\n\t".join(body) + "\n\treturn 0;\n}\n"
    return {"src": src, "out": "\n".join(m.out) + "\n", "keys": keys, "n": n_eval}


def run(case, env):
    got = env.slang(case["src"])
    return Result(compare_output(case["out"], 0, got), bool(case["keys"]), case["keys"], evaluations=case["n"])


def render(case):
    return case["src"]
