"""Iterators over texts and text files: characters and separated pieces, several iterators at a time."""
import os

from coll import Program, Raised
from vlib import Result, compare_output

PROPERTY = "C47"
LEVEL = "exploration"
CASES = {"quick": 9000, "thorough": 60000}
RULE = ("case = 1 to 4 iterators over characters or separated pieces of texts of up to 24 characters (given directly, as text objects or as files), used "
        "alternately, with changes of the separator, copies, restarts and loops; non-trivial if two iterators with several elements are used alternately "
        "or a separator is changed in the middle; distinct counts program texts")

SEPARATORS = [" ", " ", ",", "a", "--", ", ", "ab", "aa"]


def lit(s):
    return '"%s"' % s.replace("\n", "\\n")


class Pieces:
    """The pieces between occurrences of a separator."""

    def __init__(self, text, sep):
        self.text, self.sep = text, sep
        self.reset()

    def reset(self):
        self.cur = -1
        self.end = -len(self.sep)

    def more(self):
        return self.end < len(self.text)

    def find(self, start):
        p = self.text.find(self.sep, start)
        return len(self.text) if p < 0 else p

    def next(self):
        if not self.more():
            raise Raised()
        self.cur = self.end + len(self.sep)
        self.end = self.find(self.cur)
        return self.current()

    def skip(self, sep):
        """Continues behind the next occurrence of another separator."""
        start = self.end + len(self.sep)
        self.sep = sep
        p = self.text.find(sep, start)
        if p < 0:
            self.reset()
            raise Raised()
        self.end = p
        return self.next()

    def current(self):
        if self.cur < 0:
            raise Raised()
        return self.text[self.cur:self.end]

    def count(self):
        return len(self.text.split(self.sep))


class Chars:
    def __init__(self, text):
        self.text, self.cur = text, -1

    def more(self):
        return self.cur + 1 < len(self.text)

    def next(self):
        if not self.more():
            raise Raised()
        self.cur += 1
        return self.text[self.cur]

    def current(self):
        if self.cur < 0:
            raise Raised()
        return self.text[self.cur]

    def count(self):
        return len(self.text)


def text(t):
    sep = t.choice(SEPARATORS)
    parts = ["".join(t.choice("abc-,X ") for _ in range(t.weighted([(2, 0), (4, 1), (3, 2), (2, 4)]))) for _ in range(t.weighted([(1, 0), (2, 1), (3, 3), (3, 5)]))]
    return sep.join(parts)[:24]


def gen(t):
    p = Program(["FileReader.Scanner", "System.CharacterIterator", "System.String", "System.StringIterator"], "string")
    its = []
    files = {}
    labels = {"pieces": 0, "characters": 0, "from files": 0, "changed separators": 0, "used alternately": 0, "loops": 0, "copies": 0}

    def create():
        n = "i%d" % len(its)
        s = text(t)
        kind = t.choice(["pieces", "pieces", "characters"])
        src = t.choice(["text", "object", "file"])
        if src == "file" and not s:
            src = "text"            # reading an empty file is left open
        arg = lit(s)
        if src == "object":
            p.stmt("String s%s = new String(%s);" % (n, lit(s)))
            arg = "s" + n
        elif src == "file":
            f = "f%d.txt" % len(files)
            files[f] = s
            p.stmt('Scanner s%s = new Scanner("%s");' % (n, f))
            p.stmt('print("<" + s%s.getText() + ">");' % n, ["<%s>" % s])
            labels["from files"] += 1
        sep = t.choice(SEPARATORS)
        labels[kind] += 1
        if kind == "characters":
            p.stmt("%s %s = %s;" % (t.choice(["var", "CharacterIterator"]), n, "s%s.getIterator()" % n if src != "text" and t.bool() or src == "file"
                                    else "new CharacterIterator(%s)" % arg))
            its.append([n, kind, Chars(s)])
            return
        if src == "file":
            e = 's%s.getStringIterator("%s")' % (n, sep)
        elif src == "object" and t.bool():
            e = 's%s.SplitBy("%s")' % (n, sep) if sep != " " else "s%s.Split()" % n
        else:
            e = "new StringIterator(%s%s)" % (arg, ', "%s"' % sep if sep != " " or t.bool() else "")
        p.stmt("%s %s = %s;" % (t.choice(["var", "StringIterator"]), n, e))
        its.append([n, kind, Pieces(s, sep)])

    for _ in range(t.weighted([(1, 1), (3, 2), (2, 3)])):
        create()
    last = None
    for _ in range(t.many(5, 28, 12)):
        it = t.choice(its)
        n, kind, m = it
        chars = kind == "characters"
        if last is not None and last is not it and m.count() > 1:
            labels["used alternately"] += 1
        last = it
        op = t.weighted([(9, "next"), (3, "more"), (3, "current"), (1, "loop"), (1, "rest"), (1, "restart"), (1 if len(its) < 4 else 0, "copy"),
                         (1 if len(its) < 4 else 0, "new"), (3 if chars else 0, "peek"), (0 if chars else 7, "skip"), (1, "text"), (1, "same")])
        if op == "next":
            p.attempt(['print("@ <" + %s.next() + ">");' % n], lambda out: out.append("@ <%s>" % m.next()))
        elif op == "more":
            p.stmt('print("m " + %s.hasNext());' % n, ["m %d" % m.more()])
        elif op == "current":
            p.attempt(['print("@ <" + %s.current() + ">");' % n], lambda out: out.append("@ <%s>" % m.current()))
        elif op == "text":
            p.attempt(['string v@ = cast<string>(%s); print("@ <" + v@ + ">");' % n], lambda out: out.append("@ <%s>" % m.current()))
        elif op == "rest":
            p.stmt('while ( %s.hasNext() ) { print("r <" + %s.next() + ">"); }' % (n, n))
            while m.more():
                p.out.append("r <%s>" % m.next())
        elif op == "loop":
            # a loop over a text object
            s = text(t)
            labels["loops"] += 1
            p.n += 1
            p.stmt('String t%d = new String(%s); foreach ( string c : t%d ) { print("c " + c); }' % (p.n, lit(s), p.n), ["c " + c for c in s])
        elif op == "restart":
            if chars:
                s = text(t)
                p.stmt("%s.reset(%s);" % (n, lit(s)))
                it[2] = Chars(s)
            else:
                if t.bool():
                    p.stmt("%s.reset();" % n)
                else:
                    m.sep = t.choice(SEPARATORS)
                    p.stmt('%s.setSeparator("%s", true);' % (n, m.sep))
                m.reset()
        elif op == "copy":
            c = "i%d" % len(its)
            p.stmt("var %s = copy %s;" % (c, n))
            labels["copies"] += 1
            its.append([c, kind, Chars(m.text) if chars else Pieces(m.text, m.sep)])
        elif op == "new":
            create()
        elif op == "peek":
            k = t.int(-2, 3)

            def f(out):
                if not 0 <= m.cur + k < len(m.text):
                    raise Raised()
                out.append("@ <%s>" % m.text[m.cur + k])
            p.attempt(['print("@ <" + %s.peek(%s) + ">");' % (n, k if k != 1 or t.bool() else "")], f)
        elif op == "skip":
            if m.cur < 0 or not m.more():
                continue
            labels["changed separators"] += 1
            sep = t.choice(SEPARATORS)
            if not p.attempt(['print("@ <" + %s.next("%s") + ">");' % (n, sep)], lambda out: out.append("@ <%s>" % m.skip(sep))):
                p.stmt("%s.reset();" % n)
                m.reset()
        else:
            o = t.choice([x for x in its if x[1] == kind])
            p.stmt('print("s " + (%s == %s));' % (n, o[0]), ["s %d" % (m.text == o[2].text and m.cur == o[2].cur)])
    case = p.case()
    case.update(files=files, labels=labels)
    case["nt"] = labels["used alternately"] > 1 or labels["changed separators"] > 0
    return case


def run(case, env):
    d = env.dir()
    for f, s in case["files"].items():
        with open(os.path.join(d, f), "w") as h:
            h.write(s)
    got = env.slang(case["src"])
    return Result(compare_output("".join(x + "\n" for x in case["out"]), 0, got), case["nt"], case["src"], labels=case["labels"])


def render(case):
    return case["src"] + "\n// files: %r" % case["files"]
