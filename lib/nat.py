"""Reference model of Slang's native types and a generator of typed expressions over them.

Model (taken from the test scripts and the type table): a binary operator is computed in the type of its left
operand, the right operand is converted to that type first. The static type of an expression comes from the type
table and only decides what is accepted.
"""
import math
import re

import numpy as np

np.seterr(all="ignore")

INTS = ("int16", "int", "int64")
REALS = ("float", "double")
NUM = INTS + REALS
TYPES = ("bool",) + NUM + ("string",)
BITS = {"int16": 16, "int": 32, "int64": 64}


class Undefined(Exception):
    """The operation has no defined result (out-of-range float to int, NaN, division by zero)."""


def wrap(v, t):
    n = BITS[t]
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) else v


def f32(x):
    return float(np.float32(x))


def text(v, t):
    if t == "bool":
        return "1" if v else "0"
    if t in INTS:
        return str(v)
    if t in REALS:
        if math.isnan(v):
            raise Undefined()
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        s = "%f" % v
        s = s.rstrip("0")
        return s[:-1] if s.endswith(".") else s
    return v


WS = " \t\n\r\v\f"
INT_RE = re.compile(r"[ \t\n\r\v\f]*([+-]?[0-9]+)")
DBL_RE = re.compile(r"[ \t\n\r\v\f]*([+-]?(?:[0-9]+\.?[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?)")


def parse_int(s):
    m = INT_RE.match(s)
    if not m:
        return 0
    v = int(m.group(1))
    return max(-(1 << 63), min((1 << 63) - 1, v))


def parse_double(s):
    m = DBL_RE.match(s)
    if not m:
        return 0.0
    rest = s[m.end():]
    if rest[:1] in ("e", "E", ".", "+", "-"):
        raise Undefined()       # partial exponents: outside the modelled domain
    return float(m.group(1))


def to_bool(v, t):
    if t == "string":
        return v.strip(WS).lower() not in ("", "false")
    return v != 0


def convert(v, src, dst):
    if dst == "string":
        return text(v, src)
    if dst == "bool":
        if isinstance(v, float) and math.isnan(v):
            raise Undefined()
        return to_bool(v, src)
    if dst in INTS:
        if src == "string":
            i = parse_int(v)
        elif src in REALS:
            if math.isnan(v) or math.isinf(v) or abs(v) >= 2.0 ** 63:
                raise Undefined()
            i = int(v)
        else:
            i = int(v)
        return wrap(i, dst)
    if src == "string":
        d = parse_double(v)
    else:
        try:
            d = float(v)
        except OverflowError:
            raise Undefined()
    if dst == "float":
        if src in INTS:
            # single rounding from the integer
            return float(np.float32(np.int64(v)))
        return f32(d)
    return d


def truncdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def arith(op, a, b, t):
    if t in INTS:
        if op == "+":
            r = a + b
        elif op == "-":
            r = a - b
        elif op == "*":
            r = a * b
        elif op in "/%":
            if b == 0:
                raise Undefined()
            q = truncdiv(a, b)
            r = q if op == "/" else a - q * b
        elif op == "&":
            r = a & b
        elif op == "|":
            r = a | b
        return wrap(r, t)
    x, y = (np.float32(a), np.float32(b)) if t == "float" else (np.float64(a), np.float64(b))
    if op == "+":
        r = x + y
    elif op == "-":
        r = x - y
    elif op == "*":
        r = x * y
    else:
        r = x / y
    r = float(r)
    if math.isnan(r):
        raise Undefined()
    return r


def bytes_key(s):
    return s.encode("utf-8", "surrogateescape")


def compare(op, a, b, t):
    if t == "string":
        a, b = bytes_key(a), bytes_key(b)
    return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def logic(op, a, b):
    """b is a function, called only when needed."""
    if op == "&&":
        return a and b()
    if op == "||":
        return a or b()
    if op == "!&":
        return not (a and b())
    raise AssertionError(op)


ADD = ("+", "-")
MUL = ("*", "/", "%")
CMP = ("==", "!=", "<", "<=", ">", ">=")
LOG = ("&&", "||", "!&")


def static_result(op, l, r):
    """Static result type or None if the combination is not accepted."""
    if op in LOG:
        return "bool"
    if op in CMP:
        if l in ("bool", "string", "int16"):
            if l != r or (l == "bool" and op not in ("==", "!=")):
                return None
            return "bool"
        return "bool" if r in NUM else None
    if op in ("&", "|"):
        return l if l == r and l in INTS else None
    if op == "<<":
        return "string" if l == "string" else None
    if op == "%":
        if l not in INTS or r not in INTS:
            return None
        return r if l == "int16" else l
    if l == "string":
        return "string" if op == "+" else None
    if l == "bool" or r not in NUM:
        return None
    if l in REALS:
        return l
    if r in REALS:
        return r
    if l == "int16":
        return r
    return l


class E:
    """Expression node: st = static type, and eval(env) -> (value, runtime type)."""
    prec = 5
    __slots__ = ("st",)


class Lit(E):
    __slots__ = ("v",)

    def __init__(self, v, t):
        self.v, self.st = v, t

    def emit(self, t=None):
        return literal(self.v, self.st)

    def eval(self, env):
        return self.v, self.st

    def size(self):
        return 0


class Var(E):
    __slots__ = ("name",)

    def __init__(self, name, t):
        self.name, self.st = name, t

    def emit(self, t=None):
        return self.name

    def eval(self, env):
        return env[self.name], self.st

    def size(self):
        return 0


class Cast(E):
    __slots__ = ("e",)

    def __init__(self, e, t):
        self.e, self.st = e, t

    def emit(self, t=None):
        return "cast<%s>( %s )" % (self.st, self.e.emit(t))

    def eval(self, env):
        v, rt = self.e.eval(env)
        return convert(v, rt, self.st), self.st

    def size(self):
        return 1 + self.e.size()


class Un(E):
    __slots__ = ("op", "e")
    prec = 4

    def __init__(self, op, e, t):
        self.op, self.e, self.st = op, e, t

    def emit(self, t=None):
        s = self.e.emit(t)
        if self.e.prec < 5 or s.startswith("-"):
            s = "(" + s + ")"
        return self.op + s

    def eval(self, env):
        v, rt = self.e.eval(env)
        if self.op == "!":
            return not to_bool(v, rt), "bool"
        if self.op == "+":
            return v, rt
        if rt in INTS:
            return wrap(-v, rt), rt
        return -v, rt

    def size(self):
        return 1 + self.e.size()


PREC = {"&&": 0, "||": 0, "!&": 0}
for _o in CMP:
    PREC[_o] = 1
for _o in ("+", "-", "&", "|", "<<"):
    PREC[_o] = 2
for _o in MUL:
    PREC[_o] = 3


class Bin(E):
    __slots__ = ("op", "l", "r")

    def __init__(self, op, l, r, t):
        self.op, self.l, self.r, self.st = op, l, r, t

    @property
    def prec(self):
        return PREC[self.op]

    def emit(self, t=None):
        p = PREC[self.op]
        l = self.l.emit(t)
        if self.l.prec < p or (t is not None and t.bool(1, 8)):
            l = "(" + l + ")"
        r = self.r.emit(t)
        if self.r.prec <= p or r[0] in "+-" or (t is not None and t.bool(1, 8)):
            r = "(" + r + ")"
        return "%s %s %s" % (l, self.op, r)

    def eval(self, env):
        a, at = self.l.eval(env)
        op = self.op
        if op in PREC and PREC[op] == 0:
            def right():
                v, t = self.r.eval(env)
                return to_bool(v, t)
            return logic(op, to_bool(a, at), right), "bool"
        b, bt = self.r.eval(env)
        if op in CMP:
            return compare(op, a, convert(b, bt, at), at), "bool"
        if at == "string":
            return a + text(b, bt), "string"
        return arith(op, a, convert(b, bt, at), at), at

    def size(self):
        return 1 + self.l.size() + self.r.size()


class Tern(E):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b, self.st = c, a, b, a.st

    def emit(self, t=None):
        c = self.c.emit(t)
        if self.c.prec < 5:
            c = "(" + c + ")"
        return "(%s ? %s : %s)" % (c, self.a.emit(t), self.b.emit(t))

    def eval(self, env):
        v, t = self.c.eval(env)
        return (self.a if to_bool(v, t) else self.b).eval(env)

    def size(self):
        return 1 + self.c.size() + self.a.size() + self.b.size()


def literal(v, t):
    if t == "bool":
        return "true" if v else "false"
    if t in INTS:
        return str(v)
    if t == "double" or t == "float":
        return np.format_float_positional(np.float64(v) if t == "double" else np.float32(v), trim="0") + t[0]
    return '"' + v + '"'


STR_CHARS = "abcxyzABZ019 _-+*/%&|<>=!?:;,.(){}[]#@$^~'"
WORDS = ["", "a", "b", "ab", "abc", "false", "False", "FALSE", "true", "0", "1", "-1", "12", "3.25", " ", "0.0", "-7",
         "123456789", "Z", "aa", " false", "null", "// x", "/* y */", "a;b", "{", "}", "é", "ü€"]


def gen_string(t):
    k = t.below(4)
    if k < 3:
        return t.choice(WORDS)
    return "".join(t.choice(STR_CHARS) for _ in range(t.int(1, 8)))


INT_EDGES = [0, 1, 2, 3, 5, 7, 10, 100, 255, 256, 1000, 32767, 32768, 65535, 65536, 46341, 2147483647]
INT64_EDGES = [2147483648, 4294967295, 4294967296, 5000000000, 9007199254740993, 9223372036854775807]


def gen_int(t, typ):
    """A value of an integer type, small and boundary values preferred."""
    k = t.below(4)
    if k == 0:
        v = t.int(0, 9)
    elif k == 1:
        v = t.choice(INT_EDGES)
    elif k == 2 and typ == "int64":
        v = t.choice(INT64_EDGES)
    else:
        v = t.below(1 << (BITS[typ] - 1))
    if t.bool(1, 3):
        v = -v - (1 if t.bool(1, 6) else 0)
    return wrap(v, typ)


REAL_EDGES = [0.0, 1.0, 0.5, 1.5, 2.5, 0.1, 0.25, 3.0, 10.0, 100.125, 0.999999, 0.000001, 1234.5678, 16777216.0,
              123456789.0, 4294967296.5]


def gen_real(t, typ):
    k = t.below(3)
    if k < 2:
        v = t.choice(REAL_EDGES)
    else:
        v = t.int(0, 99999) / t.choice([1, 2, 3, 7, 8, 10, 100, 1000])
    if t.bool(1, 4):
        v = -v
    return f32(v) if typ == "float" else v


def gen_value(t, typ):
    if typ == "bool":
        return t.bool()
    if typ in INTS:
        return gen_int(t, typ)
    if typ in REALS:
        return gen_real(t, typ)
    return gen_string(t)


def const(v, typ):
    """Expression denoting a value of the given type (without relying on variables)."""
    if typ == "bool" or typ == "string":
        return Lit(v, typ)
    if typ in REALS:
        if v < 0 or (v == 0 and math.copysign(1, v) < 0):
            return Un("-", Lit(-v, typ), typ)
        return Lit(v, typ)
    if typ == "int":
        if v == -(1 << 31):
            return Bin("-", Un("-", Lit((1 << 31) - 1, "int"), "int"), Lit(1, "int"), "int")
        return Un("-", Lit(-v, "int"), "int") if v < 0 else Lit(v, "int")
    if typ == "int16":
        return Cast(const(v, "int"), "int16")
    # int64
    if v == -(1 << 63):
        return Bin("-", Un("-", Lit((1 << 63) - 1, "int64"), "int64"), Lit(1, "int"), "int64")
    if abs(v) > (1 << 31) - 1:
        return Un("-", Lit(-v, "int64"), "int64") if v < 0 else Lit(v, "int64")
    return Cast(const(v, "int"), "int64")


class ExprGen:
    """Generates expressions of a wanted static type from variables {name: type} and literals."""

    def __init__(self, t, variables, mixed=True, extra=None):
        self.t = t
        self.vars = variables
        self.mixed = mixed
        self.extra = extra        # optional hook: extra(typ, depth) -> expression or None

    def leaf(self, typ):
        names = [n for n, vt in self.vars.items() if vt == typ]
        if names and self.t.bool(1, 2):
            return Var(self.t.choice(names), typ)
        return const(gen_value(self.t, typ), typ)

    def gen(self, typ, depth):
        t = self.t
        if self.extra is not None:
            e = self.extra(typ, depth)
            if e is not None:
                return e
        if depth <= 0 or t.below(6) == 0:
            return self.leaf(typ)
        k = t.below(12)
        if k == 0:
            return Cast(self.gen(t.choice(TYPES), depth - 1), typ)
        if k == 1:
            c = self.gen("bool", depth - 1)
            return Tern(c, self.gen(typ, depth - 1), self.gen(typ, depth - 1))
        if typ == "bool":
            k = t.below(10)
            if k == 0:
                return Un("!", self.gen("bool" if t.bool(2, 3) else t.choice(NUM), depth - 1), "bool")
            if k < 5:
                op = t.choice(LOG)
                l = "bool" if t.bool(3, 4) else t.choice(TYPES)
                r = "bool" if t.bool(3, 4) else t.choice(TYPES)
                if l == "string" and r == "int64":
                    r = "int"
                return Bin(op, self.gen(l, depth - 1), self.gen(r, depth - 1), "bool")
            op = t.choice(CMP)
            l = t.choice(NUM + ("string", "int"))
            r = l
            if self.mixed and l in NUM and l != "int16" and t.bool(1, 4):
                r = t.choice(NUM)
            if op in ("==", "!=") and t.bool(1, 6):
                l = r = "bool"
            return Bin(op, self.gen(l, depth - 1), self.gen(r, depth - 1), "bool")
        if typ == "string":
            op = "+" if t.bool(5, 6) else "<<"
            return Bin(op, self.gen("string", depth - 1), self.gen(t.choice(TYPES), depth - 1), "string")
        if t.below(8) == 0:
            return Un(t.choice("--+"), self.gen(typ, depth - 1), typ)
        ops = ["+", "-", "*", "/"]
        if typ in INTS:
            ops += ["%", "&", "|"]
        op = t.choice(ops)
        if op in ("&", "|"):
            return Bin(op, self.gen(typ, depth - 1), self.gen(typ, depth - 1), typ)
        l = r = typ
        if self.mixed and t.bool(1, 4):
            cands = [(a, b) for a in NUM for b in NUM if static_result(op, a, b) == typ]
            l, r = t.choice(cands)
        return Bin(op, self.gen(l, depth - 1), self.gen(r, depth - 1), typ)
