"""Mathematical functions: every function of the math, rounding and random extensions and of the math library on generated arguments, against the C library."""
import ctypes
import math

import numpy as np

from nat import f32, text, wrap
from vlib import Result

PROPERTY = "C36"
LEVEL = "exploration"
CASES = {"quick": 12000, "thorough": 60000}
RULE = ("case = program of 4 to 14 calls of mathematical functions (all of the extension's functions in double and single precision, integer, rounding mode and random functions, "
        "library functions) with generated arguments: zeros, small and large, dyadic and decimal fractions, at and beyond the limits of the domain; the result and its multiple by 2^20 are "
        "compared; non-trivial if at least four different functions occur; distinct counts program texts")

libm = ctypes.CDLL("libm.so.6")
libc = ctypes.CDLL("libc.so.6")

#: functions of one number; the second group takes its argument as text
ONE = ["fabs", "cbrt", "ceil", "erf", "erfc", "exp", "exp2", "expm1", "floor", "lgamma", "log", "log10", "log1p", "log2", "nearbyint", "rint", "sqrt", "tgamma", "trunc"]
TEXT = ["acos", "acosh", "asin", "asinh", "atan", "atanh", "cos", "cosh", "logb", "sin", "sinh", "tan", "tanh"]
TWO = ["atan2", "copysign", "fdim", "fmax", "fmin", "fmod", "hypot", "nextafter", "pow", "remainder"]


def cfun(name, single, n):
    f = getattr(libm, name + ("f" if single else ""))
    c = ctypes.c_float if single else ctypes.c_double
    f.restype = c
    f.argtypes = [c] * n
    return f


def number(t, single):
    k = t.below(8)
    if k == 0:
        v = t.choice([0.0, 1.0, -1.0, 2.0, 0.5, -0.5, 10.0, 3.0])
    elif k < 4:
        v = t.int(-256, 256) / 2.0 ** t.int(0, 6)
    elif k < 6:
        v = t.int(-9999, 9999) / 10.0 ** t.int(0, 4)
    elif k == 6:
        v = t.int(0, 1000) / 1000.0
    else:
        v = float(t.int(-10**9, 10**9))
    return f32(v) if single else v


def lit(v, single):
    """A literal whose decimal text denotes exactly the value (single values are written with enough digits)."""
    s = np.format_float_positional(np.float32(v) if single else np.float64(v), unique=True, trim="0")
    if "." not in s:
        s += ".0"
    return s + ("f" if single else "d")


def rounded(v, mode):
    if mode == "FE_DOWNWARD":
        return float(math.floor(v))
    if mode == "FE_UPWARD":
        return math.copysign(float(math.ceil(v)), v)
    if mode == "FE_TOWARDZERO":
        return math.copysign(float(math.trunc(v)), v)
    return math.copysign(float(round(v)), v)


def show(v):
    if math.isnan(v):
        return "nan"
    return text(v, "double")


def real(out, expr, v, single):
    """Statement printing a real result and the expected lines."""
    n = len(out)
    ty = "float" if single else "double"
    return ("\t%s x%d = %s; print(x%d); print(cast<double>(x%d) * 1048576.0d);" % (ty, n, expr, n, n), [show(v), show(v * 1048576.0)])


def gen(t):
    out = []
    names = []
    imports = False
    for _ in range(t.int(4, 14)):
        k = t.weighted([(5, "one"), (4, "text"), (5, "two"), (1, "fma"), (1, "scale"), (2, "int"), (1, "powl"), (2, "round"), (1, "mode"), (1, "rand"), (2, "library"), (1, "flags"), (1, "ilogb"),
                        (1, "overload")])
        s = t.bool(2, 5)
        sfx = "f" if s else ""
        if k == "one" or k == "text":
            name = t.choice(ONE if k == "one" else TEXT)
            v = number(t, s)
            if name in ("acos", "asin", "atanh") and t.bool(3, 4):
                v = t.int(-64, 64) / 64.0
            if name in ("sqrt", "log", "log2", "log10", "acosh", "lgamma", "tgamma") and t.bool(4, 5):
                v = abs(v)
            arg = '"%s"' % lit(v, s)[:-1] if k == "text" else lit(v, s)
            try:
                r = cfun(name, s, 1)(v)
            except (OverflowError, ValueError):
                continue
            out.append(real(out, "%s%s(%s)" % (name, sfx, arg), r, s))
        elif k == "two":
            name = t.choice(TWO)
            a, b = number(t, s), number(t, s)
            if name == "pow" and t.bool(2, 3):
                b = float(t.int(-4, 8))
            if t.bool(1, 6):
                b = a
            out.append(real(out, "%s%s(%s, %s)" % (name, sfx, lit(a, s), lit(b, s)), cfun(name, s, 2)(a, b), s))
        elif k == "fma":
            name = "fma"
            a, b, c = number(t, s), number(t, s), number(t, s)
            out.append(real(out, "fma%s(%s, %s, %s)" % (sfx, lit(a, s), lit(b, s), lit(c, s)), cfun("fma", s, 3)(a, b, c), s))
        elif k == "scale":
            name = t.choice(["ldexp", "scalbn"])
            a, e = number(t, s), t.int(-20, 20)
            r = math.ldexp(a, e)
            out.append(real(out, "%s%s(%s, %s)" % (name, sfx, lit(a, s), lit(float(e), s)), f32(r) if s else r, s))
        elif k == "ilogb":
            name = "ilogb"
            a = number(t, s)
            if a == 0:
                continue
            out.append(real(out, 'ilogb%s("%s")' % (sfx, lit(a, s)[:-1]), float(math.frexp(a)[1] - 1), s))
        elif k == "overload":
            name = t.choice(["round", "sqrt", "abs"])
            a = number(t, s)
            if name == "sqrt":
                a = abs(a)
                r = math.sqrt(a)
                r = f32(r) if s else r
            elif name == "abs":
                r = abs(a)
            else:
                r = math.copysign(math.floor(abs(a) + 0.5), a) if abs(a) < 2**20 else cfun("round", s, 1)(a)
            out.append(real(out, "%s(%s)" % (name, lit(a, s)), r, s))
        elif k == "int":
            name = t.choice(["abs", "labs"])
            if name == "abs":
                a = t.choice([0, 1, -1, t.int(-2**31 + 1, 2**31 - 1), -t.int(0, 1000)])
                out.append(("\tprint(abs(%d));" % a, [str(abs(a))]))
            else:
                a = t.choice([0, -1, t.int(-2**31 + 1, 2**31 - 1)])
                b = t.int(0, 2**20)
                out.append(("\tint64 i%d = %d; i%d = i%d * %d; print(labs(i%d));" % (len(out), a, len(out), len(out), b, len(out)), [str(abs(a * b))]))
        elif k == "powl":
            name = "powl"
            a, e = t.int(-50, 50), t.int(0, 10)
            out.append(("\tint64 b%d = %d; int64 e%d = %d; print(powl(b%d, e%d));" % (len(out), a, len(out), e, len(out), len(out)), [str(a ** e)]))
        elif k == "round":
            name = t.choice(["rint", "nearbyint"])
            mode = t.choice(["FE_DOWNWARD", "FE_UPWARD", "FE_TOWARDZERO", "FE_TONEAREST"])
            if name == "rint":
                # optimising compilers replace rint by code that only works in the default mode
                mode = "FE_TONEAREST"
            a = t.int(-4000, 4000) / 8.0
            n = len(out)
            ty = "float" if s else "double"
            out.append(("\tfesetround(%s); %s x%d = %s%s(%s); fesetround(FE_TONEAREST); print(x%d + 0.0%s);" % (mode, ty, n, name, sfx, lit(a, s), n, "f" if s else "d"), [show(rounded(a, mode) + 0.0)]))
        elif k == "mode":
            name = "fegetround"
            mode = t.choice(["FE_DOWNWARD", "FE_UPWARD", "FE_TOWARDZERO", "FE_TONEAREST"])
            out.append(("\tprint(fesetround(%s)); print(fegetround() == %s); fesetround(FE_TONEAREST); print(fegetround() == FE_TONEAREST);" % (mode, mode), ["0", "1", "1"]))
        elif k == "flags":
            name = "feraiseexcept"
            a, b = t.sample(["FE_DIVBYZERO", "FE_INVALID"], 2)
            n = len(out)
            out.append(("\tfeclearexcept(FE_ALL_EXCEPT); int f%d = fetestexcept(%s); feraiseexcept(%s); int g%d = fetestexcept(%s); int h%d = fetestexcept(%s); feclearexcept(%s); int k%d = fetestexcept(%s); "
                        "print(f%d == 0); print(g%d == %s); print(h%d == 0); print(k%d == 0);" % (n, a, a, n, a, n, b, a, n, a, n, n, a, n, n), ["1", "1", "1", "1"]))
        elif k == "rand":
            name = "rand"
            seed = t.int(0, 2**31 - 1)
            cnt = t.int(1, 4)
            libc.srand(seed)
            out.append(("\tsrand(%d);%s" % (seed, " print(rand());" * cnt), [str(libc.rand()) for _ in range(cnt)]))
        else:
            imports = True
            name = t.choice(["power", "sqr", "power2"])
            ty = t.choice(["int", "float", "double"])
            e = 2 if name != "power" else t.int(0, 8)
            if ty == "int":
                a = t.int(-300, 300)
                call = {"power": "Math.power(%d, %d)" % (a, e), "sqr": "Math.sqr(%d)" % a, "power2": "Math.power(%d)" % a}[name]
                out.append(("\tprint(%s);" % call, [str(wrap(a ** e, "int"))]))
            else:
                s = ty == "float"
                a = t.int(-64, 64) / 2.0 ** t.int(0, 3)
                r = np.float32(1) if s else 1.0
                for _ in range(e):
                    r = r * (np.float32(a) if s else a)
                r = float(r)
                l = lit(a, s)
                call = {"power": "Math.power(%s, %d)" % (l, e), "sqr": "Math.sqr(%s)" % l, "power2": "Math.power(%s)" % l}[name]
                out.append(real(out, call, r, s))
        names.append(name + ("f" if s else ""))
    src = ("import System.Math.Functions;\n" if imports else "") + "public int Main(int argc, string args) modify {\n%s\n\treturn 0;\n}\n" % "\n".join(x[0] for x in out)
    return {"source": src, "expected": [y for x in out for y in x[1]], "names": names}


def render(case):
    return case["source"] + "\n// expected\n" + "\n".join(case["expected"]) + "\n"


def run(case, env):
    got = env.slang(case["source"])
    lines = got.out.decode("utf-8", "replace").split("\n")[:-1]
    lines = ["nan" if x == "-nan" else x for x in lines]
    failure = None
    if got.rc != 0 or lines != case["expected"]:
        failure = {"what": "exit status %d" % got.rc if got.rc else "output differs", "got": got.describe(),
                   "first_difference": next(([a, b] for a, b in zip(case["expected"], lines) if a != b), None)}
    return Result(failure, len(set(case["names"])) >= 4, case["source"], {n: 1 for n in case["names"]})
