"""Byte strings in generated programs. In the model a string is a str holding one character per byte."""

ALPHABETS = ["ab", "ab ", "aAbB zZ", "x,y;", " \t\n", "a1\"\\", "abü", "0123-."]


def gen_text(t, most=8):
    alpha = t.choice(ALPHABETS)
    s = "".join(t.choice(alpha) for _ in range(t.int(0, most)))
    return s.encode("utf-8").decode("latin-1")


def lit(s):
    """Source text of a string literal with the bytes s."""
    return '"%s"' % s.encode("latin-1").decode("utf-8", "surrogateescape").replace("\\", "\\\\").replace('"', '\\"')


def lower(s):
    return "".join(c.lower() if "A" <= c <= "Z" else c for c in s)


def upper(s):
    return "".join(c.upper() if "a" <= c <= "z" else c for c in s)


def raw(lines):
    return ("\n".join(lines) + "\n").encode("latin-1") if lines else b""
